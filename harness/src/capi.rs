//! The same scenarios, driven and observed through the C interface only.
use crate::rec::{Facts, flag_names, num, push_changes, record_data, start_recording, verdict, Piece, REC};
use htp::bstr::Bstr;
use htp::c_api::bstr::*;
use htp::c_api::config::*;
use htp::c_api::connection::*;
use htp::c_api::connection_parser::*;
use htp::c_api::header::*;
use htp::c_api::log::*;
use htp::c_api::transaction::*;
use htp::c_api::uri::*;
use htp::c_api::*;
use htp::config::{Config, HtpServerPersonality, HtpUrlEncodingHandling};
use htp::connection_parser::ConnectionParser;
use htp::transaction::{Data, Header, Headers, Transaction};
use htp::uri::Uri;
use htp::HtpStatus;
use serde_json::{json, Map, Value};
use std::cell::Cell;
use std::ffi::{CStr, CString};
use std::ptr::{null, null_mut};

thread_local! { static CONNP: Cell<*const ConnectionParser> = const { Cell::new(null()) }; }

fn back(r: Result<(), HtpStatus>) -> HtpStatus { match r { Ok(()) => HtpStatus::OK, Err(e) => e } }
fn mark(i: isize) -> *mut libc::c_void { (1000 + i) as usize as *mut libc::c_void }

unsafe fn event(name: &str, which: u32, connp: *const ConnectionParser, tx: *const Transaction) -> Value {
    let name = if connp == CONNP.with(|c| c.get()) && !tx.is_null() { name.to_string() } else { format!("{} of another parser", name) };
    json!({"h": name, "w": which, "i": htp_tx_index(tx), "rp": format!("{:?}", htp_tx_request_progress(tx)), "sp": format!("{:?}", htp_tx_response_progress(tx))})
}

unsafe fn on_tx(name: &'static str, which: u32, connp: *const ConnectionParser, tx: *mut Transaction) -> HtpStatus {
    let e = event(name, which, connp, tx);
    if which == 1 { htp_tx_set_user_data(tx, mark(htp_tx_index(tx))); }
    let r = REC.with(|r| {
        let r = &mut *r.borrow_mut();
        r.ev.push(e);
        if r.txhook && name == "response_headers" && which == 1 { htp_tx_register_response_body_data(tx, tx_body) }
        verdict(r, name, which)
    });
    back(r)
}

unsafe fn on_data(name: &'static str, which: u32, connp: *const ConnectionParser, data: *mut Data) -> HtpStatus {
    let tx = htp_tx_data_tx(data);
    let e = event(name, which, connp, tx);
    let (p, n) = (htp_tx_data_data(data), htp_tx_data_len(data));
    let name = if htp_tx_data_is_empty(data) == (n == 0) { name } else { "contradictory emptiness" };
    let piece = if p.is_null() { if n > 0 { Piece::Gap(n as usize) } else { Piece::End } } else { Piece::Data(std::slice::from_raw_parts(p, n as usize)) };
    back(record_data(name, which, e, piece))
}
unsafe extern "C" fn tx_body(c: *const ConnectionParser, d: *mut Data) -> HtpStatus { on_data("tx_response_body_data", 1, c, d) }

macro_rules! txhooks {
    ($cfg:expr, $two:expr, $($reg:ident, $name:expr);* $(;)?) => { $( {
        unsafe extern "C" fn a(c: *const ConnectionParser, tx: *mut Transaction) -> HtpStatus { on_tx($name, 1, c, tx) }
        unsafe extern "C" fn b(c: *const ConnectionParser, tx: *mut Transaction) -> HtpStatus { on_tx($name, 2, c, tx) }
        $reg($cfg, a);
        if $two { $reg($cfg, b); }
    } )* }
}
macro_rules! datahooks {
    ($cfg:expr, $two:expr, $($reg:ident, $name:expr);* $(;)?) => { $( {
        unsafe extern "C" fn a(c: *const ConnectionParser, d: *mut Data) -> HtpStatus { on_data($name, 1, c, d) }
        unsafe extern "C" fn b(c: *const ConnectionParser, d: *mut Data) -> HtpStatus { on_data($name, 2, c, d) }
        $reg($cfg, a);
        if $two { $reg($cfg, b); }
    } )* }
}

unsafe fn register(cfg: *mut Config, two: bool) {
    txhooks!(cfg, two,
        htp_config_register_request_start, "request_start";
        htp_config_register_request_line, "request_line";
        htp_config_register_request_headers, "request_headers";
        htp_config_register_request_trailer, "request_trailer";
        htp_config_register_request_complete, "request_complete";
        htp_config_register_response_start, "response_start";
        htp_config_register_response_headers, "response_headers";
        htp_config_register_response_trailer, "response_trailer";
        htp_config_register_response_complete, "response_complete";
        htp_config_register_transaction_complete, "transaction_complete";
    );
    datahooks!(cfg, two,
        htp_config_register_request_header_data, "request_header_data";
        htp_config_register_request_body_data, "request_body_data";
        htp_config_register_request_trailer_data, "request_trailer_data";
        htp_config_register_response_header_data, "response_header_data";
        htp_config_register_response_body_data, "response_body_data";
        htp_config_register_response_trailer_data, "response_trailer_data";
    );
}

fn personality(p: &str) -> HtpServerPersonality {
    match p {
        "MINIMAL" => HtpServerPersonality::MINIMAL,
        "GENERIC" => HtpServerPersonality::GENERIC,
        "IDS" => HtpServerPersonality::IDS,
        "IIS_4_0" => HtpServerPersonality::IIS_4_0,
        "IIS_5_0" => HtpServerPersonality::IIS_5_0,
        "IIS_5_1" => HtpServerPersonality::IIS_5_1,
        "IIS_6_0" => HtpServerPersonality::IIS_6_0,
        "IIS_7_0" => HtpServerPersonality::IIS_7_0,
        "IIS_7_5" => HtpServerPersonality::IIS_7_5,
        "APACHE_2" => HtpServerPersonality::APACHE_2,
        _ => panic!("personality"),
    }
}

unsafe fn configure(cfg: *mut Config, c: &Value) {
    if let Some(p) = c["personality"].as_str() { htp_config_set_server_personality(cfg, personality(p)); }
    for (k, v) in c.as_object().unwrap() {
        let b = v.as_bool().unwrap_or(false);
        let i = b as libc::c_int;
        let n = v.as_u64().unwrap_or(0);
        match k.as_str() {
            "personality" | "two" | "txhook" | "snap" => {}
            "field_limit" => htp_config_set_field_limit(cfg, n as usize),
            "max_tx" => htp_config_set_max_tx(cfg, n as u32),
            "auto_destroy" => htp_config_set_tx_auto_destroy(cfg, i),
            "flush" => htp_config_set_flush_incomplete(cfg, i),
            "parse_urlencoded" => htp_config_set_parse_urlencoded(cfg, i),
            "allow_space_uri" => htp_config_set_allow_space_uri(cfg, b),
            "req_decomp" => htp_config_set_request_decompression(cfg, i),
            "layer_limit" => htp_config_set_decompression_layer_limit(cfg, n as libc::c_int),
            "lzma_layers" => htp_config_set_lzma_layers(cfg, n as libc::c_int),
            "lzma_memlimit" => htp_config_set_lzma_memlimit(cfg, n as usize),
            "bomb_limit" => htp_config_set_compression_bomb_limit(cfg, n as usize),
            "double_decode_path" => htp_config_set_double_decode_normalized_path(cfg, b),
            "double_decode_query" => htp_config_set_double_decode_normalized_query(cfg, b),
            "backslash" => htp_config_set_backslash_convert_slashes(cfg, i),
            "lowercase" => htp_config_set_convert_lowercase(cfg, i),
            "sep_compress" => htp_config_set_path_separators_compress(cfg, i),
            "sep_decode" => htp_config_set_path_separators_decode(cfg, i),
            "plusspace" => htp_config_set_plusspace_decode(cfg, i),
            "nul_raw_term" => htp_config_set_nul_raw_terminates(cfg, i),
            "nul_enc_term" => htp_config_set_nul_encoded_terminates(cfg, i),
            "u_decode" => htp_config_set_u_encoding_decode(cfg, i),
            "inv_handling" => htp_config_set_url_encoding_invalid_handling(cfg, match v.as_str().unwrap() {
                "REMOVE" => HtpUrlEncodingHandling::REMOVE_PERCENT,
                "PROCESS" => HtpUrlEncodingHandling::PROCESS_INVALID,
                _ => HtpUrlEncodingHandling::PRESERVE_PERCENT }),
            "include_all" => htp_config_set_normalized_uri_include_all(cfg, b),
            "bestfit" => htp_config_set_utf8_convert_bestfit(cfg, i),
            "bestfit_repl" => htp_config_set_bestfit_replacement_byte(cfg, n as libc::c_int),
            other => panic!("cfg key {} is not in the C interface", other),
        }
    }
    htp_config_set_compression_time_limit(cfg, u32::MAX);
}

/// whatever is done to the configuration after the parser was made must not matter
unsafe fn disturb(cfg: *mut Config) {
    htp_config_set_field_limit(cfg, 1);
    htp_config_set_max_tx(cfg, 0);
    htp_config_set_server_personality(cfg, HtpServerPersonality::IIS_5_1);
    htp_config_set_request_decompression(cfg, 1);
    htp_config_set_tx_auto_destroy(cfg, 1);
    htp_config_set_flush_incomplete(cfg, 1);
    htp_config_set_decompression_layer_limit(cfg, 1);
    htp_config_set_compression_bomb_limit(cfg, 1);
    htp_config_set_allow_space_uri(cfg, true);
    htp_config_set_convert_lowercase(cfg, 1);
    register(cfg, false);
}

unsafe fn bs(b: *const Bstr) -> Value {
    if b.is_null() { json!([]) } else { json!([std::slice::from_raw_parts(bstr_ptr(b), bstr_len(b))]) }
}
unsafe fn raw(p: *const u8, n: isize) -> Value { if p.is_null() || n < 0 { Value::Null } else { json!(std::slice::from_raw_parts(p, n as usize)) } }

unsafe fn headers(hs: *const Headers, size: isize, at: &dyn Fn(usize) -> *const Header, get: &dyn Fn(*const libc::c_char) -> *const Header, pre: &str, m: &mut Map<String, Value>) {
    let (mut list, mut found) = (vec![], vec![]);
    let ptrs: Vec<*const Header> = (0..size.max(0) as usize).map(at).collect();
    for (i, &h) in ptrs.iter().enumerate() {
        let (n, v) = (raw(htp_header_name_ptr(h), htp_header_name_len(h)), raw(htp_header_value_ptr(h), htp_header_value_len(h)));
        // the other ways to the same things agree
        let same = json!([n]) == bs(htp_header_name(h)) && json!([v]) == bs(htp_header_value(h)) && htp_headers_get_index(hs, i) == h;
        list.push(if same { json!({"n": n, "v": v, "f": flag_names(htp_header_flags(h))}) } else { json!({"n": "differs", "v": [], "f": []}) });
        let name: Vec<u8> = n.as_array().unwrap().iter().map(|x| (x.as_u64().unwrap() as u8).to_ascii_uppercase()).filter(|x| *x != 0).collect();
        let key = CString::new(name).unwrap();
        let (a, b) = (get(key.as_ptr()), htp_headers_get(hs, key.as_ptr()));
        found.push(if !key.as_bytes().is_ascii() { -3 } else if a != b { -2 } else { ptrs.iter().position(|&q| q == a).map(|x| x as i64).unwrap_or(-1) });
    }
    let none = CString::new("X-Not-There").unwrap();
    let beyond = at(size.max(0) as usize).is_null() && htp_headers_get_index(hs, size.max(0) as usize).is_null() && get(none.as_ptr()).is_null() && htp_headers_size(hs) == size;
    m.insert(format!("{}h", pre), Value::Array(list));
    m.insert(format!("{}hget", pre), json!(found));
    m.insert(format!("{}hfl", pre), json!(flag_names(htp_headers_flags(hs))));
    m.insert(format!("{}hend", pre), json!(beyond));
}

unsafe fn uri(u: *const Uri) -> Value {
    if u.is_null() { return json!([]) }
    json!([{"scheme": bs(htp_uri_scheme(u)), "user": bs(htp_uri_username(u)), "pass": bs(htp_uri_password(u)), "host": bs(htp_uri_hostname(u)),
        "port": bs(htp_uri_port(u)), "portn": htp_uri_port_number(u), "path": bs(htp_uri_path(u)), "query": bs(htp_uri_query(u)), "frag": bs(htp_uri_fragment(u))}])
}

/// -1 stands for "none" and for lengths the C type cannot hold; see rec::num
fn len(c: i64, full: Option<u64>) -> i64 {
    match full { Some(x) if x > i64::MAX as u64 && c == -1 => -2, _ if c < 0 => c, _ => num(Some(c as u64)) }
}

unsafe fn tx_json(tx: *const Transaction) -> Value {
    let mut m = Map::new();
    let mut put = |k: &str, v: Value| { m.insert(k.into(), v); };
    let i = htp_tx_index(tx);
    put("i", json!(i));
    put("rp", json!(format!("{:?}", htp_tx_request_progress(tx))));
    put("sp", json!(format!("{:?}", htp_tx_response_progress(tx))));
    put("meth", json!(format!("{:?}", htp_tx_request_method_number(tx))));
    put("rproto", json!(format!("{:?}", htp_tx_request_protocol_number(tx))));
    put("sproto", json!(format!("{:?}", htp_tx_response_protocol_number(tx))));
    put("p09", json!(htp_tx_is_protocol_0_9(tx) == 1));
    put("exp", json!(htp_tx_response_status_expected_number(tx)));
    put("status", json!(htp_tx_response_status_number(tx)));
    put("rtc", json!(format!("{:?}", htp_tx_request_transfer_coding(tx))));
    put("rml", json!(len(htp_tx_request_message_len(tx), None)));
    put("rel", json!(len(htp_tx_request_entity_len(tx), None)));
    put("sml", json!(len(htp_tx_response_message_len(tx), None)));
    put("sel", json!(len(htp_tx_response_entity_len(tx), None)));
    put("rcl", json!(len(htp_tx_request_content_length(tx), (*tx).request_content_length)));
    put("scl", json!(len(htp_tx_response_content_length(tx), (*tx).response_content_length)));
    put("flags", json!(flag_names(htp_tx_flags(tx))));
    put("h2c", json!(htp_tx_is_http_2_upgrade(tx) == 1));
    put("rline", bs(htp_tx_request_line(tx)));
    put("method", bs(htp_tx_request_method(tx)));
    put("uri", bs(htp_tx_request_uri(tx)));
    put("rprotos", bs(htp_tx_request_protocol(tx)));
    put("sline", bs(htp_tx_response_line(tx)));
    put("sprotos", bs(htp_tx_response_protocol(tx)));
    put("statuss", bs(htp_tx_response_status(tx)));
    put("msg", bs(htp_tx_response_message(tx)));
    put("rce", json!(format!("{:?}", htp_tx_request_content_encoding(tx))));
    put("host", bs(htp_tx_request_hostname(tx)));
    put("port", json!(htp_tx_request_port_number(tx)));
    put("rct", bs(htp_tx_request_content_type(tx)));
    put("sct", bs(htp_tx_response_content_type(tx)));
    put("auth", json!(format!("{:?}", htp_tx_request_auth_type(tx))));
    put("puri", uri(htp_tx_parsed_uri(tx)));
    put("curi", bs(htp_tx_normalized_uri(tx)));
    let ud = htp_tx_get_user_data(tx);
    put("ud", json!(ud.is_null() || ud == mark(i)));
    headers(htp_tx_request_headers(tx), htp_tx_request_headers_size(tx), &|x| htp_tx_request_header_index(tx, x), &|k| htp_tx_request_header(tx, k), "r", &mut m);
    headers(htp_tx_response_headers(tx), htp_tx_response_headers_size(tx), &|x| htp_tx_response_header_index(tx, x), &|k| htp_tx_response_header(tx, k), "s", &mut m);
    Value::Object(m)
}

unsafe fn snap(c: *mut ConnectionParser, last: &mut std::collections::HashMap<usize, Value>, facts: &mut Facts) -> Value {
    let size = htp_connp_tx_size(c);
    let (mut txs, mut ids, mut logs) = (vec![], vec![], vec![]);
    for i in 0..(size.max(0) as usize + 2) {
        let tx = htp_connp_tx(c, i);
        if tx.is_null() { continue }
        ids.push(i);
        push_changes(&mut txs, last, i, tx_json(tx));
    }
    last.retain(|k, _| ids.contains(k));
    let conn = htp_connp_connection(c);
    loop {
        let l = htp_conn_next_log(conn);
        if l.is_null() { break }
        let (msg, file) = (htp_log_message(l), htp_log_file(l));
        // what is said is not specified; that something is said, and where, is
        let said = !msg.is_null() && !CStr::from_ptr(msg).to_bytes().is_empty() && !file.is_null() && !CStr::from_ptr(file).to_bytes().is_empty();
        logs.push(json!({"c": if said { format!("{:?}", htp_log_code(l)) } else { "(empty message)".into() }}));
        if let Some(l) = l.as_ref() { facts.message(&*c, l) }
        htp_free_cstring(msg);
        htp_free_cstring(file);
        htp_log_free(l);
    }
    let mut s = json!({"size": size, "rc": num(Some(htp_conn_request_data_counter(conn))), "sc": num(Some(htp_conn_response_data_counter(conn))),
        "ids": ids, "txs": txs, "logs": logs, "ud": htp_connp_user_data(c) == mark(-7)});
    facts.show(&*c, &mut s);
    s
}

pub fn run_scenario(v: &Value) -> Value {
    let cj = &v["cfg"];
    start_recording(v);
    let mut out = vec![];
    let mut last = std::collections::HashMap::new();
    let (mut cleft, mut sleft): (Vec<u8>, Vec<u8>) = (vec![], vec![]);
    let fin;
    unsafe {
        let cfg = htp_config_create();
        configure(cfg, cj);
        register(cfg, cj["two"].as_bool().unwrap_or(false));
        let c = htp_connp_create(cfg);
        CONNP.with(|x| x.set(c));
        disturb(cfg);
        htp_config_destroy(cfg);
        let nodata = htp_connp_user_data(c).is_null();
        htp_connp_set_user_data(c, mark(-7));
        let mut facts = Facts::begin(v, &mut *c);
        let ts = libc::timeval { tv_sec: 1_600_000_000, tv_usec: 5 };
        for (x, st) in v["steps"].as_array().unwrap().iter().enumerate() {
            let op = st["op"].as_str().unwrap();
            let mut data: Vec<u8> = st["d"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default();
            let mut n = st["n"].as_u64().unwrap_or(0) as usize;
            match op { "cr" => data = std::mem::take(&mut cleft), "sr" => data = std::mem::take(&mut sleft), _ => {} }
            if (op == "cr" || op == "sr") && data.is_empty() { continue }
            let given = libc::timeval { tv_sec: st["t"][0].as_i64().unwrap_or(i64::MAX), tv_usec: st["t"][1].as_i64().unwrap_or(5) };
            let t = if facts.on { if st["t"].is_null() { null() } else { &given as *const _ } } else if x % 2 == 0 { null() } else { &ts as *const _ };
            let p = data.as_ptr() as *const libc::c_void;
            let mut ret = String::new();
            let mut cons = 0;
            match op {
                "open" => {
                    let text = |k: &str, d: &str| if st["a"].is_object() { st["a"][k].as_str().map(|x| CString::new(x).unwrap()) } else { Some(CString::new(d).unwrap()) };
                    let port = |k: &str, d: i64| st["a"][k].as_i64().unwrap_or(d) as libc::c_int;
                    let (a, b) = (text("ca", "10.0.0.1"), text("sa", "10.0.0.2"));
                    htp_connp_open(c, a.as_ref().map_or(null(), |x| x.as_ptr()), port("cp", 40000), b.as_ref().map_or(null(), |x| x.as_ptr()), port("sp", 80), t)
                }
                "c" | "cr" => { ret = format!("{:?}", htp_connp_request_data(c, t, p, data.len())); cons = htp_connp_request_data_consumed(c); }
                "s" | "sr" => { ret = format!("{:?}", htp_connp_response_data(c, t, p, data.len())); cons = htp_connp_response_data_consumed(c); }
                "cg" => { ret = format!("{:?}", htp_connp_request_data(c, t, null(), n)); cons = htp_connp_request_data_consumed(c); }
                "sg" => { ret = format!("{:?}", htp_connp_response_data(c, t, null(), n)); cons = htp_connp_response_data_consumed(c); }
                "rclose" => htp_connp_request_close(c, t),
                "close" => htp_connp_close(c, t),
                "rm" => {
                    let tx = htp_connp_tx(c, n);
                    // a transaction that has not begun is not shown, so nothing is asked to be removed
                    if tx.is_null() { n = 999_999 }
                    htp_tx_destroy(c, tx)
                }
                _ => panic!("op"),
            }
            let ev = REC.with(|r| std::mem::take(&mut r.borrow_mut().ev));
            if ret == "DATA_OTHER" && cons >= 0 && cons as usize <= data.len() {
                let rest = data[cons as usize..].to_vec();
                if op.starts_with('c') { cleft = rest } else { sleft = rest }
            }
            let s = snap(c, &mut last, &mut facts);
            let mut o = json!({"op": op, "d": data, "n": n, "ret": ret, "cons": if cons < 0 { cons } else { num(Some(cons as u64)) }, "ev": ev, "s": s});
            facts.given(st, &mut o);
            out.push(o);
        }
        // looking at the current transactions may bring them into being: last
        // (and the second look may move the first one's object)
        let r = htp_tx_index(htp_connp_get_request_tx(c));
        fin = json!({"r": r, "s": htp_tx_index(htp_connp_get_response_tx(c)), "ud": nodata});
        htp_connp_destroy_all(c);
        CONNP.with(|x| x.set(null_mut()));
    }
    json!({"id": v["id"], "cfg": cj, "verdicts": v["verdicts"], "meta": if v["meta"].is_object() { v["meta"].clone() } else { json!({}) }, "steps": out, "fin": fin})
}
