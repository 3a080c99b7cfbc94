//! Executes scenarios (sequences of public API calls) against the real htp
//! crate and records, per call, what the specification talks about.
mod capi;
mod cnull;
mod fns;
mod mass;
mod rec;

use std::io::{BufRead, Write};
use std::sync::atomic::{AtomicU64, Ordering};

pub static BEAT: AtomicU64 = AtomicU64::new(0);

fn main() {
    let mode = std::env::args().nth(1).unwrap_or_default();
    std::panic::set_hook(Box::new(|_| {}));
    // Watchdog: a call that does not return is an observation, not a hang of the check.
    let limit: u64 = std::env::var("VH_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(30);
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        let mut same = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let b = BEAT.load(Ordering::Relaxed);
            if b == last { same += 1 } else { same = 0; last = b }
            if same > limit * 2 { std::process::exit(77) }
        }
    });
    let stdin = std::io::stdin();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for line in stdin.lock().lines() {
        let line = match line { Ok(l) => l, Err(_) => break };
        if line.trim().is_empty() { continue }
        BEAT.fetch_add(1, Ordering::Relaxed);
        let v: serde_json::Value = serde_json::from_str(&line).expect("scenario json");
        let r = match mode.as_str() {
            "run" if v["meta"]["capi"] == true => capi::run_scenario(&v),
            "run" => rec::run_scenario(&v),
            "capi" => capi::run_scenario(&v),
            "fn" => fns::run_fn(&v),
            "mass" => mass::run_mass(&v),
            _ => panic!("mode"),
        };
        let s = serde_json::to_string(&r).unwrap();
        out.write_all(s.as_bytes()).unwrap();
        out.write_all(b"\n").unwrap();
        out.flush().unwrap();
    }
    // A clean exit marker distinguishes the end of input from a crash.
    std::process::exit(0);
}
