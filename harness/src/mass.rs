//! Many variants of one scenario, derived from it by chance, each recorded in brief:
//! what the calls returned and which callbacks ran, not what the transactions hold.
use crate::rec::{self, REC};
use htp::connection_parser::ConnectionParser;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    fn chance(&mut self, percent: usize) -> bool { self.below(100) < percent }
}

#[derive(Clone)]
struct Step { op: String, d: Vec<u8>, n: usize }
fn step(op: &str, d: &[u8], n: usize) -> Step { Step { op: op.into(), d: d.into(), n } }

const ALPHABET: &[u8] = b"\t\x0b\x0c\r\n\r\n\r\n  \x00\x1f\x7f\x80\xff0919fFaZ/:.-+;%\"\\?#@[],=&_(";
const SERVER: [&[u8]; 6] = [b"HTTP/1.1 200 OK\r\n\r\n", b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n", b"HTTP/1.1 100 Continue\r\n\r\n", b"x", b"\n", b"HTTP/1.1 101 S\r\n\r\n"];
const CLIENT: [&[u8]; 6] = [b"GET /x HTTP/1.1\r\n\r\n", b"POST /x HTTP/1.1\r\nContent-Length: 9\r\n\r\n", b"GET /x", b"x\n", b"\n", b"CONNECT a:1 HTTP/1.1\r\n\r\n"];

fn is_data(s: &Step) -> bool { (s.op == "c" || s.op == "s") && !s.d.is_empty() }

/// cuts a data step in two somewhere; the index of the second half
fn cut(r: &mut Rng, st: &mut Vec<Step>) -> usize {
    let ds: Vec<usize> = (0..st.len()).filter(|i| is_data(&st[*i])).collect();
    if ds.is_empty() { return r.below(st.len() + 1) }
    let i = *r.pick(&ds);
    let k = r.below(st[i].d.len());
    if k == 0 { return i }
    let rest = st[i].d.split_off(k);
    let op = st[i].op.clone();
    st.insert(i + 1, Step { op, d: rest, n: 0 });
    i + 1
}

fn action(r: &mut Rng) -> Step {
    match r.below(12) {
        0..=2 => step("rm", b"", r.below(4)),
        3 => step("cg", b"", 1 + r.below(5)),
        4 => step("sg", b"", 1 + r.below(5)),
        5 => step("rclose", b"", 0),
        6 => step("close", b"", 0),
        7 => step("open", b"", 0),
        8 => step(if r.chance(50) { "c" } else { "s" }, b"", 0),
        9..=10 => step("s", *r.pick(&SERVER), 0),
        _ => step("c", *r.pick(&CLIENT), 0),
    }
}

fn edit(r: &mut Rng, st: &mut Vec<Step>) {
    let ds: Vec<usize> = (0..st.len()).filter(|i| is_data(&st[*i])).collect();
    if ds.is_empty() { return }
    let (i, j) = (*r.pick(&ds), *r.pick(&ds));
    let other = st[j].d.clone();
    let d = &mut st[i].d;
    let k = r.below(d.len());
    match r.below(8) {
        0 => d.insert(k, *r.pick(ALPHABET)),
        1 => { d.remove(k); }
        2 => d[k] = *r.pick(ALPHABET),
        3 => { let b = d[k]; d.insert(k, b) }
        4 => d[k] ^= 1 << r.below(8),
        5 => { let e = (k + 1 + r.below(12)).min(d.len()); d.drain(k..e); }
        6 => { let a = r.below(other.len()); let e = (a + 1 + r.below(24)).min(other.len()); d.splice(k..k, other[a..e].iter().copied()); }
        _ => {
            // a line leaves or comes twice
            let b = d[..k].iter().rposition(|c| *c == b'\n').map_or(0, |x| x + 1);
            let e = d[k..].iter().position(|c| *c == b'\n').map_or(d.len(), |x| k + x + 1);
            if r.chance(50) { d.drain(b..e); } else { let l = d[b..e].to_vec(); d.splice(b..b, l); }
        }
    }
}

fn vary(r: &mut Rng, cfg: &mut Value, st: &mut Vec<Step>) {
    for _ in 0..1 + r.below(3) {
        match r.below(10) {
            0..=2 => edit(r, st),
            3 => { for _ in 0..1 + r.below(6) { cut(r, st); } }
            4..=5 => { let i = cut(r, st); let a = action(r); st.insert(i, a) }
            6 => {
                // a transaction goes while it is in progress, and the other side speaks first
                let i = cut(r, st);
                let c = i < st.len() && st[i].op == "c";
                let k = r.below(3);
                st.insert(i, if c { step("s", *r.pick(&SERVER), 0) } else { step("c", *r.pick(&CLIENT), 0) });
                st.insert(i, step("rm", b"", k));
                if r.chance(60) { cfg["max_tx"] = json!(k + 1) }
            }
            7 => {
                if st.len() > 1 {
                    let i = r.below(st.len() - 1);
                    match r.below(3) { 0 => st.swap(i, i + 1), 1 => { st.remove(i); } _ => { let s = st[i].clone(); let j = r.below(st.len()); st.insert(j, s) } }
                }
            }
            8 => {
                // bytes are lost
                let i = cut(r, st);
                if i < st.len() && is_data(&st[i]) {
                    let n = (1 + r.below(st[i].d.len())).min(st[i].d.len());
                    let op = if st[i].op == "c" { "cg" } else { "sg" };
                    st[i].d.drain(..n);
                    if st[i].d.is_empty() { st[i] = step(op, b"", n) } else { st.insert(i, step(op, b"", n)) }
                }
            }
            _ => match r.below(6) {
                0 => cfg["max_tx"] = json!(1 + r.below(3)),
                1 => cfg["auto_destroy"] = json!(true),
                2 => cfg["flush"] = json!(true),
                3 => cfg["field_limit"] = json!(1 + r.below(60)),
                4 => cfg["txhook"] = json!(true),
                _ => cfg["personality"] = json!(*r.pick(&["MINIMAL", "GENERIC", "IDS", "IIS_4_0", "IIS_5_0", "IIS_5_1", "IIS_6_0", "IIS_7_0", "IIS_7_5", "APACHE_2"])),
            },
        }
    }
}

fn run(cfg: &Value, v: &Value, steps: &[Step]) -> Value {
    let scen = json!({"cfg": cfg, "verdicts": v["verdicts"]});
    rec::start_recording(&scen);
    let mut conf = rec::build_config(cfg);
    rec::register(&mut conf, cfg["two"].as_bool().unwrap_or(false));
    let mut c = ConnectionParser::new(conf);
    let mut out = Vec::new();
    let (mut cleft, mut sleft): (Vec<u8>, Vec<u8>) = (vec![], vec![]);
    let mut panicked = false;
    for s in steps {
        let data = match s.op.as_str() { "cr" => std::mem::take(&mut cleft), "sr" => std::mem::take(&mut sleft), _ => s.d.clone() };
        if (s.op == "cr" || s.op == "sr") && data.is_empty() { continue }
        let op = match s.op.as_str() { "cr" => "c", "sr" => "s", x => x };
        let res = catch_unwind(AssertUnwindSafe(|| match op {
            "open" => { c.open(None, None, None, None, None); (String::new(), 0) }
            "c" => { let r = c.request_data(data.as_slice().into(), None); (format!("{:?}", r), c.request_data_consumed()) }
            "s" => { let r = c.response_data(data.as_slice().into(), None); (format!("{:?}", r), c.response_data_consumed()) }
            "cg" => { let r = c.request_data(s.n.into(), None); (format!("{:?}", r), c.request_data_consumed()) }
            "sg" => { let r = c.response_data(s.n.into(), None); (format!("{:?}", r), c.response_data_consumed()) }
            "rclose" => { c.request_close(None); (String::new(), 0) }
            "close" => { c.close(None); (String::new(), 0) }
            "rm" => { c.remove_tx(s.n); (String::new(), 0) }
            _ => panic!("op"),
        }));
        let ev: Vec<Value> = REC.with(|r| std::mem::take(&mut r.borrow_mut().ev)).into_iter().filter(|e| e["w"] == 1).map(|e| {
            let n = match e["k"].as_str() { Some("data") => e["d"].as_array().map_or(0, |a| a.len()) as u64, Some("gap") => e["n"].as_u64().unwrap_or(0), _ => 0 };
            json!([e["h"], e["i"], e["k"].as_str().unwrap_or("tx"), n])
        }).collect();
        let len = if op == "cg" || op == "sg" { s.n } else if op == "c" || op == "s" { data.len() } else { 0 };
        match res {
            Ok((ret, cons)) => {
                if ret == "DATA_OTHER" && cons <= data.len() && op.len() == 1 {
                    let rest = data[cons..].to_vec();
                    if op == "c" { cleft = rest } else { sleft = rest }
                }
                let mut held = Vec::new();
                let hi = c.request_index().max(c.response_index()) + 1;
                for i in 0..=hi {
                    if let Some(t) = c.tx(i) { held.push(json!([i, t.request_entity_len, t.response_entity_len, t.is_started()])) }
                }
                out.push(json!({"op": op, "len": len, "n": s.n, "ret": ret, "cons": cons.min(1 << 30), "rs": format!("{:?}", c.request_status), "ss": format!("{:?}", c.response_status),
                    "rc": c.conn.request_data_counter.min(1 << 30), "sc": c.conn.response_data_counter.min(1 << 30), "held": held, "ev": ev}));
            }
            Err(_) => { panicked = true; out.push(json!({"op": op, "len": len, "n": s.n, "ret": "PANIC", "cons": 0, "rs": "", "ss": "", "rc": 0, "sc": 0, "held": [], "ev": ev})); break }
        }
    }
    let dropped = catch_unwind(AssertUnwindSafe(move || drop(c))).is_ok();
    json!({"max_tx": cfg["max_tx"].as_u64().unwrap_or(512), "auto": cfg["auto_destroy"] == true, "verdicts": v["verdicts"].as_array().map_or(0, |a| a.len()), "steps": out, "dropped": dropped && !panicked})
}

/// The variants of the scenario; one of them when its number is given.
pub fn run_mass(v: &Value) -> Value {
    let base: Vec<Step> = v["steps"].as_array().unwrap().iter().map(|s| Step {
        op: s["op"].as_str().unwrap().into(),
        d: s["d"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default(),
        n: s["n"].as_u64().unwrap_or(0) as usize,
    }).collect();
    let seed = v["mass"]["seed"].as_u64().unwrap_or(0);
    let one = v["mass"]["only"].as_u64();
    let mut runs = Vec::new();
    for k in 0..v["mass"]["n"].as_u64().unwrap_or(1) {
        if one.map_or(false, |x| x != k) { continue }
        crate::BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let mut r = Rng(seed.wrapping_mul(0x2545f4914f6cdd1d) ^ k.wrapping_mul(0x9e6c63d0876a9a47));
        let (mut cfg, mut st) = (v["cfg"].clone(), base.clone());
        if k > 0 { vary(&mut r, &mut cfg, &mut st) }
        let mut o = run(&cfg, v, &st);
        o["k"] = json!(k);
        if one.is_some() {
            // for the reader
            o["as"] = json!({"cfg": cfg, "calls": st.iter().map(|s| json!([s.op, s.n, String::from_utf8_lossy(&s.d)])).collect::<Vec<_>>()});
        }
        runs.push(o);
    }
    json!({"id": v["id"], "runs": runs})
}
