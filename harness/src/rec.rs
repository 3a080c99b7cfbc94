use htp::config::{Config, HtpServerPersonality, HtpUnwanted, HtpUrlEncodingHandling};
use htp::connection_parser::{ConnectionParser, ParserData};
use htp::log::HtpLogLevel;
use htp::transaction::{HtpResponseNumber, Transaction};
use htp::util::HtpFlags;
use htp::HtpStatus;
use serde_json::{json, Map, Value};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Default)]
pub struct Rec {
    pub ev: Vec<Value>,
    counts: std::collections::HashMap<(String, u32), u64>,
    verdicts: Vec<(String, u32, u64, String)>, // hook, callback, nth, ret
    pub txhook: bool,
    hooked: std::collections::HashSet<(&'static str, usize)>,
}

thread_local! { pub static REC: RefCell<Rec> = RefCell::new(Rec::default()); }

fn status_of(s: &str) -> Result<(), HtpStatus> {
    Err(match s {
        "OK" => return Ok(()),
        "DECLINED" => HtpStatus::DECLINED,
        "STOP" => HtpStatus::STOP,
        "ERROR" => HtpStatus::ERROR,
        "DATA" => HtpStatus::DATA,
        "DATA_OTHER" => HtpStatus::DATA_OTHER,
        "DATA_BUFFER" => HtpStatus::DATA_BUFFER,
        _ => HtpStatus::ERROR,
    })
}

pub fn verdict(r: &mut Rec, name: &str, which: u32) -> Result<(), HtpStatus> {
    let c = r.counts.entry((name.to_string(), which)).or_insert(0);
    *c += 1;
    let c = *c;
    for (h, w, n, ret) in &r.verdicts {
        if h == name && *w == which && (*n == c || *n == 0) {
            return status_of(ret);
        }
    }
    Ok(())
}

fn on_tx(name: &'static str, which: u32, tx: &mut Transaction) -> Result<(), HtpStatus> {
    REC.with(|r| {
        let r = &mut *r.borrow_mut();
        r.ev.push(json!({"h": name, "w": which, "i": tx.index, "rp": format!("{:?}", tx.request_progress), "sp": format!("{:?}", tx.response_progress)}));
        if r.txhook && name == "request_headers" && which == 1 && r.hooked.insert((name, tx.index)) {
            tx.register_request_body_data(tx_request_body);
        }
        if r.txhook && name == "response_headers" && which == 1 && r.hooked.insert((name, tx.index)) {
            tx.hook_response_body_data.register(tx_response_body);
        }
        verdict(r, name, which)
    })
}

fn tx_request_body(tx: &mut Transaction, d: &ParserData) -> Result<(), HtpStatus> { on_data("tx_request_body_data", 1, tx, d) }
fn tx_response_body(tx: &mut Transaction, d: &ParserData) -> Result<(), HtpStatus> { on_data("tx_response_body_data", 1, tx, d) }

/// The parameter processor sees the parameters of the query.
fn on_param(p: &mut htp::transaction::Param) -> Result<(), HtpStatus> {
    REC.with(|r| r.borrow_mut().ev.push(json!({"h": "param", "n": p.name.as_slice(), "v": p.value.as_slice()})));
    Ok(())
}

/// Data callbacks: consecutive deliveries to the same callback are merged, and
/// empty ones left out, since the number of pieces in which the data of a call
/// arrives is not part of the behaviour we specify.
fn on_data(name: &'static str, which: u32, tx: &mut Transaction, d: &ParserData) -> Result<(), HtpStatus> {
    let e = json!({"h": name, "w": which, "i": tx.index, "rp": format!("{:?}", tx.request_progress), "sp": format!("{:?}", tx.response_progress)});
    let k = if d.is_gap() { Piece::Gap(d.len()) } else if let Some(s) = d.data() { Piece::Data(s) } else { Piece::End };
    record_data(name, which, e, k)
}

pub enum Piece<'a> { Gap(usize), Data(&'a [u8]), End }

pub fn record_data(name: &'static str, which: u32, mut e: Value, piece: Piece) -> Result<(), HtpStatus> {
    REC.with(|r| {
        let r = &mut *r.borrow_mut();
        let k = match piece {
            Piece::Gap(n) => { e["n"] = json!(n); "gap" }
            Piece::Data(s) => {
                if s.is_empty() { return Ok(()) }
                e["d"] = json!(s);
                "data"
            }
            Piece::End => "end",
        };
        e["k"] = json!(k);
        let same = match r.ev.last() {
            Some(l) => ["h", "w", "i", "rp", "sp", "k"].iter().all(|f| l[f] == e[f]),
            None => false,
        };
        if same {
            let last = r.ev.last_mut().unwrap();
            match k {
                "data" => { let more = e["d"].as_array().unwrap().clone(); last["d"].as_array_mut().unwrap().extend(more); }
                "gap" => { let n = last["n"].as_u64().unwrap() + e["n"].as_u64().unwrap(); last["n"] = json!(n); }
                _ => {}
            }
        } else { r.ev.push(e) }
        verdict(r, name, which)
    })
}

macro_rules! txhooks {
    ($cfg:expr, $two:expr, $($reg:ident, $name:expr);* $(;)?) => { $(
        {
            fn a(tx: &mut Transaction) -> Result<(), HtpStatus> { on_tx($name, 1, tx) }
            fn b(tx: &mut Transaction) -> Result<(), HtpStatus> { on_tx($name, 2, tx) }
            $cfg.$reg(a);
            if $two { $cfg.$reg(b); }
        }
    )* }
}
macro_rules! datahooks {
    ($cfg:expr, $two:expr, $($reg:ident, $name:expr);* $(;)?) => { $(
        {
            fn a(tx: &mut Transaction, d: &ParserData) -> Result<(), HtpStatus> { on_data($name, 1, tx, d) }
            fn b(tx: &mut Transaction, d: &ParserData) -> Result<(), HtpStatus> { on_data($name, 2, tx, d) }
            $cfg.$reg(a);
            if $two { $cfg.$reg(b); }
        }
    )* }
}

fn unwanted(v: &Value) -> HtpUnwanted {
    match v.as_i64() { Some(400) => HtpUnwanted::CODE_400, Some(404) => HtpUnwanted::CODE_404, _ => HtpUnwanted::IGNORE }
}

pub fn build_config(c: &Value) -> Config {
    let mut cfg = Config::default();
    if let Some(p) = c["personality"].as_str() {
        let p = match p {
            "MINIMAL" => HtpServerPersonality::MINIMAL,
            "GENERIC" => HtpServerPersonality::GENERIC,
            "IDS" => HtpServerPersonality::IDS,
            "IIS_4_0" => HtpServerPersonality::IIS_4_0,
            "IIS_5_0" => HtpServerPersonality::IIS_5_0,
            "IIS_5_1" => HtpServerPersonality::IIS_5_1,
            "IIS_6_0" => HtpServerPersonality::IIS_6_0,
            "IIS_7_0" => HtpServerPersonality::IIS_7_0,
            "IIS_7_5" => HtpServerPersonality::IIS_7_5,
            "APACHE_2" => HtpServerPersonality::APACHE_2,
            _ => panic!("personality"),
        };
        let _ = cfg.set_server_personality(p);
    }
    if let Some(m) = c.as_object() {
        for (k, v) in m {
            let b = v.as_bool().unwrap_or(false);
            match k.as_str() {
                "personality" | "two" | "txhook" | "snap" => {}
                "field_limit" => cfg.set_field_limit(v.as_u64().unwrap() as usize),
                "max_tx" => cfg.max_tx = v.as_u64().unwrap() as u32,
                "auto_destroy" => cfg.set_tx_auto_destroy(b),
                "flush" => cfg.set_flush_incomplete(b),
                "parse_urlencoded" => cfg.set_parse_urlencoded(b),
                "parse_auth" => cfg.parse_request_auth = b,
                "allow_space_uri" => cfg.set_allow_space_uri(b),
                "lead_ws_unwanted" => cfg.set_requestline_leading_whitespace_unwanted(unwanted(v)),
                "req_decomp" => cfg.set_request_decompression(b),
                "resp_decomp" => cfg.response_decompression_enabled = b,
                "layer_limit" => cfg.set_decompression_layer_limit(v.as_u64().map(|x| x as u32)),
                "lzma_layers" => cfg.compression_options.set_lzma_layers(v.as_u64().map(|x| x as u32)),
                "lzma_memlimit" => cfg.compression_options.set_lzma_memlimit(v.as_u64().unwrap() as usize),
                "bomb_limit" => cfg.compression_options.set_bomb_limit(v.as_u64().unwrap()),
                "bomb_ratio" => cfg.compression_options.set_bomb_ratio(v.as_u64().unwrap()),
                "log_level" => cfg.log_level = match v.as_str().unwrap() {
                    "NONE" => HtpLogLevel::NONE, "ERROR" => HtpLogLevel::ERROR, "WARNING" => HtpLogLevel::WARNING,
                    "NOTICE" => HtpLogLevel::NOTICE, "INFO" => HtpLogLevel::INFO, "DEBUG" => HtpLogLevel::DEBUG,
                    _ => HtpLogLevel::DEBUG2 },
                "double_decode_path" => cfg.set_double_decode_normalized_path(b),
                "double_decode_query" => cfg.set_double_decode_normalized_query(b),
                "backslash" => cfg.set_backslash_convert_slashes(b),
                "lowercase" => cfg.set_convert_lowercase(b),
                "sep_compress" => cfg.set_path_separators_compress(b),
                "sep_decode" => cfg.set_path_separators_decode(b),
                "plusspace" => cfg.set_plusspace_decode(b),
                "sep_unwanted" => cfg.decoder_cfg.path_separators_encoded_unwanted = unwanted(v),
                "nul_raw_term" => cfg.set_nul_raw_terminates(b),
                "nul_raw_unwanted" => cfg.decoder_cfg.nul_raw_unwanted = unwanted(v),
                "ctl_unwanted" => cfg.set_control_chars_unwanted(unwanted(v)),
                "u_decode" => cfg.set_u_encoding_decode(b),
                "u_unwanted" => cfg.set_u_encoding_unwanted(unwanted(v)),
                "inv_handling" => cfg.set_url_encoding_invalid_handling(match v.as_str().unwrap() {
                    "REMOVE" => HtpUrlEncodingHandling::REMOVE_PERCENT,
                    "PROCESS" => HtpUrlEncodingHandling::PROCESS_INVALID,
                    _ => HtpUrlEncodingHandling::PRESERVE_PERCENT }),
                "inv_unwanted" => cfg.set_url_encoding_invalid_unwanted(unwanted(v)),
                "nul_enc_term" => cfg.set_nul_encoded_terminates(b),
                "nul_enc_unwanted" => cfg.decoder_cfg.nul_encoded_unwanted = unwanted(v),
                "include_all" => cfg.set_normalized_uri_include_all(b),
                "utf8_unwanted" => cfg.decoder_cfg.utf8_invalid_unwanted = unwanted(v),
                "bestfit" => cfg.set_utf8_convert_bestfit(b),
                "bestfit_repl" => cfg.set_bestfit_replacement_byte(v.as_u64().unwrap() as u8),
                other => panic!("unknown cfg key {}", other),
            }
        }
    }
    cfg.parameter_processor = Some(on_param);
    // The wall-clock guard of the decompressors is not deterministic: keep it out of the runs.
    cfg.compression_options.set_time_limit(u32::MAX);
    cfg
}

pub fn register(cfg: &mut Config, two: bool) {
    fn uri1(tx: &mut Transaction) -> Result<(), HtpStatus> { on_tx("request_uri_normalize", 1, tx) }
    fn uri2(tx: &mut Transaction) -> Result<(), HtpStatus> { on_tx("request_uri_normalize", 2, tx) }
    cfg.hook_request_uri_normalize.register(uri1);
    if two { cfg.hook_request_uri_normalize.register(uri2) }
    txhooks!(cfg, two,
        register_request_start, "request_start";
        register_request_line, "request_line";
        register_request_headers, "request_headers";
        register_request_trailer, "request_trailer";
        register_request_complete, "request_complete";
        register_response_start, "response_start";
        register_response_line, "response_line";
        register_response_headers, "response_headers";
        register_response_trailer, "response_trailer";
        register_response_complete, "response_complete";
        register_transaction_complete, "transaction_complete";
    );
    datahooks!(cfg, two,
        register_request_header_data, "request_header_data";
        register_request_body_data, "request_body_data";
        register_request_trailer_data, "request_trailer_data";
        register_response_header_data, "response_header_data";
        register_response_body_data, "response_body_data";
        register_response_trailer_data, "response_trailer_data";
    );
}

pub const FLAGS: &[(&str, u64)] = &[
    ("FIELD_UNPARSEABLE", HtpFlags::FIELD_UNPARSEABLE), ("FIELD_INVALID", HtpFlags::FIELD_INVALID),
    ("FIELD_FOLDED", HtpFlags::FIELD_FOLDED), ("FIELD_REPEATED", HtpFlags::FIELD_REPEATED),
    ("FIELD_LONG", HtpFlags::FIELD_LONG), ("FIELD_RAW_NUL", HtpFlags::FIELD_RAW_NUL),
    ("REQUEST_SMUGGLING", HtpFlags::REQUEST_SMUGGLING), ("INVALID_FOLDING", HtpFlags::INVALID_FOLDING),
    ("REQUEST_INVALID_T_E", HtpFlags::REQUEST_INVALID_T_E), ("MULTI_PACKET_HEAD", HtpFlags::MULTI_PACKET_HEAD),
    ("HOST_MISSING", HtpFlags::HOST_MISSING), ("HOST_AMBIGUOUS", HtpFlags::HOST_AMBIGUOUS),
    ("PATH_ENCODED_NUL", HtpFlags::PATH_ENCODED_NUL), ("PATH_RAW_NUL", HtpFlags::PATH_RAW_NUL),
    ("PATH_INVALID_ENCODING", HtpFlags::PATH_INVALID_ENCODING), ("PATH_INVALID", HtpFlags::PATH_INVALID),
    ("PATH_OVERLONG_U", HtpFlags::PATH_OVERLONG_U), ("PATH_ENCODED_SEPARATOR", HtpFlags::PATH_ENCODED_SEPARATOR),
    ("PATH_UTF8_VALID", HtpFlags::PATH_UTF8_VALID), ("PATH_UTF8_INVALID", HtpFlags::PATH_UTF8_INVALID),
    ("PATH_UTF8_OVERLONG", HtpFlags::PATH_UTF8_OVERLONG), ("PATH_HALF_FULL_RANGE", HtpFlags::PATH_HALF_FULL_RANGE),
    ("STATUS_LINE_INVALID", HtpFlags::STATUS_LINE_INVALID), ("HOSTU_INVALID", HtpFlags::HOSTU_INVALID),
    ("HOSTH_INVALID", HtpFlags::HOSTH_INVALID), ("URLEN_ENCODED_NUL", HtpFlags::URLEN_ENCODED_NUL),
    ("URLEN_INVALID_ENCODING", HtpFlags::URLEN_INVALID_ENCODING), ("URLEN_OVERLONG_U", HtpFlags::URLEN_OVERLONG_U),
    ("URLEN_HALF_FULL_RANGE", HtpFlags::URLEN_HALF_FULL_RANGE), ("URLEN_RAW_NUL", HtpFlags::URLEN_RAW_NUL),
    ("REQUEST_INVALID", HtpFlags::REQUEST_INVALID), ("REQUEST_INVALID_C_L", HtpFlags::REQUEST_INVALID_C_L),
    ("AUTH_INVALID", HtpFlags::AUTH_INVALID), ("REQUEST_MISSING_BYTES", 0x0010_0000_0000),
    ("RESPONSE_MISSING_BYTES", 0x0020_0000_0000), ("MISSING_BYTES", HtpFlags::MISSING_BYTES),
];

pub fn flag_names(f: u64) -> Vec<String> {
    let mut v = Vec::new();
    let mut rest = f;
    for (n, b) in FLAGS { if f & b == *b { v.push(n.to_string()); rest &= !b; } }
    if rest != 0 { v.push(format!("OTHER_{:x}", rest)); }
    v
}

/// TLC integers are 32 bit: larger values are recorded as -2, absent ones as -1.
pub fn num(n: Option<u64>) -> i64 {
    match n { None => -1, Some(x) if x < 0x7fff_ffff => x as i64, _ => -2 }
}

pub fn opt(b: Option<&[u8]>) -> Value {
    // Option as a sequence of zero or one elements
    match b { None => json!([]), Some(s) => json!([s]) }
}

pub fn ob(b: &Option<htp::bstr::Bstr>) -> Value { opt(b.as_ref().map(|x| x.as_slice())) }

pub fn uri_json(u: &Option<htp::uri::Uri>) -> Value {
    match u {
        None => json!([]),
        Some(u) => json!([{"scheme": ob(&u.scheme), "user": ob(&u.username), "pass": ob(&u.password), "host": ob(&u.hostname),
            "port": ob(&u.port), "portn": u.port_number.map(|x| x as i64).unwrap_or(-1), "path": ob(&u.path), "query": ob(&u.query), "frag": ob(&u.fragment)}]),
    }
}

fn headers_json(h: &htp::transaction::Headers) -> Value {
    Value::Array(h.elements.iter().map(|x| json!({"n": x.name.as_slice(), "v": x.value.as_slice(), "f": flag_names(x.flags)})).collect())
}

pub fn tx_json(tx: &Transaction, level: u64) -> Value {
    let mut m = Map::new();
    m.insert("i".into(), json!(tx.index));
    m.insert("rp".into(), json!(format!("{:?}", tx.request_progress)));
    m.insert("sp".into(), json!(format!("{:?}", tx.response_progress)));
    m.insert("meth".into(), json!(format!("{:?}", tx.request_method_number)));
    m.insert("rproto".into(), json!(format!("{:?}", tx.request_protocol_number)));
    m.insert("sproto".into(), json!(format!("{:?}", tx.response_protocol_number)));
    m.insert("p09".into(), json!(tx.is_protocol_0_9));
    m.insert("exp".into(), json!(tx.response_status_expected_number as i64));
    m.insert("status".into(), json!(match tx.response_status_number { HtpResponseNumber::UNKNOWN => 0, HtpResponseNumber::INVALID => -1, HtpResponseNumber::VALID(n) => n as i64 }));
    m.insert("rtc".into(), json!(format!("{:?}", tx.request_transfer_coding)));
    m.insert("stc".into(), json!(format!("{:?}", tx.response_transfer_coding)));
    m.insert("rml".into(), json!(num(Some(tx.request_message_len))));
    m.insert("rel".into(), json!(num(Some(tx.request_entity_len))));
    m.insert("sml".into(), json!(num(Some(tx.response_message_len))));
    m.insert("sel".into(), json!(num(Some(tx.response_entity_len))));
    m.insert("rcl".into(), json!(num(tx.request_content_length)));
    m.insert("scl".into(), json!(num(tx.response_content_length)));
    m.insert("flags".into(), json!(flag_names(tx.flags)));
    m.insert("c100".into(), json!(tx.seen_100continue));
    m.insert("h2c".into(), json!(tx.is_http_2_upgrade));
    m.insert("rign".into(), json!(tx.request_ignored_lines));
    m.insert("sign".into(), json!(tx.response_ignored_lines));
    if level >= 2 {
        m.insert("rline".into(), ob(&tx.request_line));
        m.insert("method".into(), ob(&tx.request_method));
        m.insert("uri".into(), ob(&tx.request_uri));
        m.insert("rprotos".into(), ob(&tx.request_protocol));
        m.insert("sline".into(), ob(&tx.response_line));
        m.insert("sprotos".into(), ob(&tx.response_protocol));
        m.insert("statuss".into(), ob(&tx.response_status));
        m.insert("msg".into(), ob(&tx.response_message));
        m.insert("rh".into(), headers_json(&tx.request_headers));
        m.insert("sh".into(), headers_json(&tx.response_headers));
        m.insert("rce".into(), json!(format!("{:?}", tx.request_content_encoding)));
        m.insert("sce".into(), json!(format!("{:?}", tx.response_content_encoding)));
        m.insert("rcep".into(), json!(format!("{:?}", tx.request_content_encoding_processing)));
        m.insert("scep".into(), json!(format!("{:?}", tx.response_content_encoding_processing)));
        m.insert("host".into(), ob(&tx.request_hostname));
        m.insert("port".into(), json!(tx.request_port_number.map(|x| x as i64).unwrap_or(-1)));
        m.insert("rct".into(), ob(&tx.request_content_type));
        m.insert("sct".into(), ob(&tx.response_content_type));
        m.insert("auth".into(), json!(format!("{:?}", tx.request_auth_type)));
        m.insert("auser".into(), ob(&tx.request_auth_username));
        m.insert("apass".into(), ob(&tx.request_auth_password));
        m.insert("atok".into(), ob(&tx.request_auth_token));
        m.insert("rreps".into(), json!(tx.request_header_repetitions));
        m.insert("sreps".into(), json!(tx.response_header_repetitions));
    }
    if level >= 3 {
        m.insert("puri".into(), uri_json(&tx.parsed_uri));
        m.insert("rawuri".into(), uri_json(&tx.parsed_uri_raw));
        m.insert("nuri".into(), ob(&tx.partial_normalized_uri));
        m.insert("cnuri".into(), ob(&tx.complete_normalized_uri));
    }
    Value::Object(m)
}

/// the fields that changed since the last call
pub fn push_changes(txs: &mut Vec<Value>, last: &mut std::collections::HashMap<usize, Value>, i: usize, j: Value) {
    match last.get(&i) {
        None => txs.push(j.clone()),
        Some(l) if *l == j => return,
        Some(l) => {
            let m: Map<String, Value> = j.as_object().unwrap().iter()
                .filter(|(k, v)| *k == "i" || l[k.as_str()] != **v).map(|(k, v)| (k.clone(), v.clone())).collect();
            txs.push(Value::Object(m));
        }
    }
    last.insert(i, j);
}

/// What can be seen of the connection after a call. Of the transactions,
/// the fields are written out that changed since the last call; "ids" lists all of them.
fn snap(c: &mut ConnectionParser, level: u64, last: &mut std::collections::HashMap<usize, Value>, facts: &mut Facts) -> Value {
    let mut txs = Vec::new();
    let mut ids = Vec::new();
    let hi = c.request_index().max(c.response_index()) + 1;
    for i in 0..=hi {
        if let Some(tx) = c.tx(i) {
            use htp::transaction::{HtpRequestProgress as R, HtpResponseProgress as S};
            if tx.request_progress == R::NOT_STARTED && tx.response_progress == S::NOT_STARTED && tx.flags == 0 { continue }
            ids.push(i);
            push_changes(&mut txs, last, i, tx_json(tx, level));
        }
    }
    last.retain(|k, _| ids.contains(k));
    let mut logs = Vec::new();
    let facts_all = facts.on;
    let mut said = |l: htp::log::Log| {
        logs.push(json!({"l": format!("{:?}", l.msg.level), "c": format!("{:?}", l.msg.code)}));
        facts.message(c, &l);
    };
    if facts_all { c.conn.get_logs().into_iter().for_each(said) } else { while let Some(l) = c.conn.get_next_log() { said(l) } }
    let mut s = json!({
        "rs": format!("{:?}", c.request_status), "ss": format!("{:?}", c.response_status),
        "ri": c.request_index(), "si": c.response_index(), "size": c.tx_size(),
        "rc": num(Some(c.conn.request_data_counter)), "sc": num(Some(c.conn.response_data_counter)),
        "pipe": c.conn.flags & 1 != 0, "ext09": c.conn.flags & 2 != 0,
        "ids": ids, "txs": txs, "logs": logs,
    });
    facts.show(c, &mut s);
    s
}

/// Times and addresses, when the scenario is about them.
pub struct Facts { pub on: bool, logaddr: bool }
fn time_json(t: time::OffsetDateTime) -> Value { json!([t.unix_timestamp(), t.microsecond()]) }
impl Facts {
    pub fn begin(v: &Value, c: &mut ConnectionParser) -> Self {
        let on = v["meta"]["facts"].as_bool().unwrap_or(false);
        if on {
            for t in [&mut c.conn.open_timestamp, &mut c.conn.close_timestamp, &mut c.request_timestamp, &mut c.response_timestamp] { *t = time::OffsetDateTime::UNIX_EPOCH }
        }
        Facts { on, logaddr: true }
    }
    pub fn message(&mut self, c: &ConnectionParser, l: &htp::log::Log) {
        self.logaddr &= (l.client_addr, l.client_port, l.server_addr, l.server_port) == (c.conn.client_addr, c.conn.client_port, c.conn.server_addr, c.conn.server_port)
    }
    pub fn show(&mut self, c: &ConnectionParser, s: &mut Value) {
        if !self.on { return }
        let a = |x: Option<std::net::IpAddr>| x.map_or("none".to_string(), |x| x.to_string());
        let p = |x: Option<u16>| x.map_or(-1, |x| x as i64);
        s["facts"] = json!({"ca": a(c.conn.client_addr), "cp": p(c.conn.client_port), "sa": a(c.conn.server_addr), "sp": p(c.conn.server_port),
            "ot": time_json(c.conn.open_timestamp), "ct": time_json(c.conn.close_timestamp), "rt": time_json(c.request_timestamp), "st": time_json(c.response_timestamp)});
        s["logaddr"] = json!(std::mem::replace(&mut self.logaddr, true));
    }
    /// what was given with the call, for the judge
    pub fn given(&self, st: &Value, o: &mut Value) {
        if !self.on { return }
        o["t"] = match &st["t"] { Value::Array(a) if a[0].is_i64() => json!(a), _ => json!([]) };
        o["a"] = if st["a"].is_object() { json!({"ca": st["a"]["ca"].as_str().unwrap_or("none"), "cp": st["a"]["cp"].as_i64().unwrap_or(-1), "sa": st["a"]["sa"].as_str().unwrap_or("none"), "sp": st["a"]["sp"].as_i64().unwrap_or(-1)}) } else { json!({"ca": "10.0.0.1", "cp": 40000, "sa": "10.0.0.2", "sp": 80}) };
    }
}
fn when(st: &Value) -> Option<time::OffsetDateTime> {
    let a = st["t"].as_array()?;
    Some(time::OffsetDateTime::from_unix_timestamp(a[0].as_i64()?).unwrap() + time::Duration::microseconds(a[1].as_i64()?))
}
fn whom(st: &Value, a: &str, p: &str, da: &str, dp: u16) -> (Option<std::net::IpAddr>, Option<u16>) {
    if !st["a"].is_object() { return (da.parse().ok(), Some(dp)) }
    (st["a"][a].as_str().and_then(|x| x.parse().ok()), st["a"][p].as_i64().and_then(|x| x.try_into().ok()))
}

/// The stages of a message one by one, as a program drives them that has its own idea of the framing.
fn by_stage(c: &mut ConnectionParser, op: &str, d: &[u8], n: usize) -> String {
    use htp::transaction::{Header, HtpRequestProgress as R, HtpResponseProgress as S};
    let mut none = ParserData::from(b"" as &[u8]);
    let header = || { let k = n.min(d.len()); Header::new(d[..k].into(), d[k..].into()) };
    let res = match op {
        "qs" => c.state_request_start(),
        "ql" => c.parse_request_line(d),
        "qL" => c.state_request_line(),
        "qu" => c.request_mut().map(|t| {
            let mut u = htp::uri::Uri::with_config(t.cfg.decoder_cfg);
            u.parse_uri(d);
            t.parsed_uri = Some(u);
        }).ok_or(HtpStatus::ERROR),
        "qh" => c.request_mut().map(|t| t.request_headers.elements.push(header())).ok_or(HtpStatus::ERROR),
        "qH" => c.state_request_headers(&mut none),
        "qb" => c.request_body_data(Some(d)),
        "qe" => c.request_body_data(None),
        "qp" => c.request_mut().map(|t| t.request_progress = [R::LINE, R::HEADERS, R::BODY, R::TRAILER][n % 4]).ok_or(HtpStatus::ERROR),
        "qc" => c.state_request_complete(&mut none),
        "ws" => c.state_response_start(),
        "wl" => c.parse_response_line(d),
        "wL" => c.state_response_line(),
        "wh" => c.response_mut().map(|t| t.response_headers.elements.push(header())).ok_or(HtpStatus::ERROR),
        "wH" => c.state_response_headers(&mut none),
        "wb" => c.response_body_data(Some(d)),
        "we" => c.response_body_data(None),
        "wp" => c.response_mut().map(|t| t.response_progress = [S::LINE, S::HEADERS, S::BODY, S::TRAILER][n % 4]).ok_or(HtpStatus::ERROR),
        "wc" => c.state_response_complete(&mut none),
        _ => panic!("op"),
    };
    match res { Ok(()) => "OK".into(), Err(e) => format!("{:?}", e) }
}

pub fn start_recording(v: &Value) {
    let cj = &v["cfg"];
    REC.with(|r| {
        let mut r = r.borrow_mut();
        *r = Rec::default();
        r.txhook = cj["txhook"].as_bool().unwrap_or(false);
        if let Some(a) = v["verdicts"].as_array() {
            for x in a {
                r.verdicts.push((x["h"].as_str().unwrap().into(), x["w"].as_u64().unwrap_or(1) as u32, x["n"].as_u64().unwrap(), x["ret"].as_str().unwrap().into()));
            }
        }
    });
}

pub fn run_scenario(v: &Value) -> Value {
    let cj = &v["cfg"];
    let level = cj["snap"].as_u64().unwrap_or(1);
    start_recording(v);
    let mut cfg = build_config(cj);
    register(&mut cfg, cj["two"].as_bool().unwrap_or(false));
    let mut c = ConnectionParser::new(cfg);
    let mut facts = Facts::begin(v, &mut c);
    let mut out = Vec::new();
    let mut last = std::collections::HashMap::new();
    let (mut cleft, mut sleft): (Vec<u8>, Vec<u8>) = (vec![], vec![]);
    for st in v["steps"].as_array().unwrap() {
        let op = st["op"].as_str().unwrap();
        let mut data: Vec<u8> = st["d"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default();
        let n = st["n"].as_u64().unwrap_or(0) as usize;
        // "cr"/"sr": offer again the bytes the parser left unconsumed
        match op { "cr" => data = std::mem::take(&mut cleft), "sr" => data = std::mem::take(&mut sleft), _ => {} }
        if (op == "cr" || op == "sr") && data.is_empty() { continue }
        let res = catch_unwind(AssertUnwindSafe(|| {
            let mut ret = String::new();
            let mut cons = 0;
            match op {
                "open" => {
                    let ((ca, cp), (sa, sp)) = (whom(st, "ca", "cp", "10.0.0.1", 40000), whom(st, "sa", "sp", "10.0.0.2", 80));
                    c.open(ca, cp, sa, sp, when(st))
                }
                "c" | "cr" => { ret = format!("{:?}", c.request_data(data.as_slice().into(), when(st))); cons = c.request_data_consumed(); }
                "s" | "sr" => { ret = format!("{:?}", c.response_data(data.as_slice().into(), when(st))); cons = c.response_data_consumed(); }
                "cg" => { ret = format!("{:?}", c.request_data(n.into(), when(st))); cons = c.request_data_consumed(); }
                "sg" => { ret = format!("{:?}", c.response_data(n.into(), when(st))); cons = c.response_data_consumed(); }
                "rclose" => c.request_close(when(st)),
                "close" => c.close(when(st)),
                "rm" => { c.remove_tx(n); REC.with(|r| r.borrow_mut().hooked.retain(|x| x.1 != n)) }
                _ => ret = by_stage(&mut c, op, &data, n),
            }
            (ret, cons)
        }));
        let ev = REC.with(|r| std::mem::take(&mut r.borrow_mut().ev));
        match res {
            Ok((ret, cons)) => {
                if ret == "DATA_OTHER" && cons <= data.len() {
                    let rest = data[cons..].to_vec();
                    if op.starts_with('c') { cleft = rest } else { sleft = rest }
                }
                let s = catch_unwind(AssertUnwindSafe(|| snap(&mut c, level, &mut last, &mut facts)));
                match s {
                    Ok(s) => {
                        let mut o = json!({"op": op, "d": data, "n": n, "ret": ret, "cons": num(Some(cons as u64)), "ev": ev, "s": s});
                        facts.given(st, &mut o);
                        out.push(o)
                    }
                    Err(_) => {
                        let mut o = json!({"op": op, "d": data, "n": n, "ret": "PANIC_SNAP", "cons": 0, "ev": ev});
                        facts.given(st, &mut o);
                        out.push(o);
                        break;
                    }
                }
            }
            Err(_) => {
                let mut o = json!({"op": op, "d": data, "n": n, "ret": "PANIC", "cons": 0, "ev": ev});
                facts.given(st, &mut o);
                out.push(o);
                break;
            }
        }
    }
    // dropping the parser is part of the behaviour
    let dropped = catch_unwind(AssertUnwindSafe(move || drop(c))).is_ok();
    json!({"id": v["id"], "cfg": cj, "verdicts": v["verdicts"], "meta": if v["meta"].is_object() { v["meta"].clone() } else { json!({}) }, "steps": out, "dropped": dropped})
}
