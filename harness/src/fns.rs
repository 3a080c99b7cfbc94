//! Calls of single public functions.
use crate::rec::{build_config, flag_names};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn bytes(v: &Value) -> Vec<u8> { v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default() }

/// {"id", "cfg", "pieces": [[..], ..]}: the urlencoded parser, fed piece by piece
fn urlenc(v: &Value) -> Value {
    let cfg = build_config(&v["cfg"]);
    let mut p = htp::urlencoded::Parser::new(cfg.decoder_cfg);
    if v["whole"].as_bool().unwrap_or(false) {
        p.parse_complete(&bytes(&v["pieces"][0]));
    } else {
        for d in v["pieces"].as_array().unwrap() { p.parse_partial(&bytes(d)); }
        p.finalize();
    }
    let params: Vec<Value> = p.params.elements.iter().map(|(n, x)| json!({"n": n.as_slice(), "v": x.as_slice()})).collect();
    let mut out = json!({"params": params, "flags": flag_names(p.flags)});
    if v["exp"].as_bool().unwrap_or(false) {
        out["exp"] = json!(p.response_status_expected_number as i64);
    }
    out
}

fn ord(o: std::cmp::Ordering) -> i64 { o as i64 }
fn pos(p: Option<usize>) -> i64 { p.map(|x| x as i64).unwrap_or(-1) }

/// {"a", "b", "cap"}: all operations on two byte strings
fn bstr(v: &Value) -> Value {
    use htp::bstr::Bstr;
    use htp::c_api::bstr::*;
    use std::ffi::{CStr, CString};
    let (a, b) = (bytes(&v["a"]), bytes(&v["b"]));
    let cap = v["cap"].as_u64().unwrap() as usize;
    let x = Bstr::from(a.as_slice());
    let mut added = x.clone();
    added.add(&b);
    // as much as fits: room for `cap` more bytes
    let mut noex = Bstr::with_capacity(a.len() + cap);
    noex.add(&a);
    let room = noex.capacity() - noex.len();
    noex.add_noex(&b);
    let fits = if room == cap { json!(noex.as_slice()) } else { json!("another capacity") };
    let split: Vec<Value> = if b.is_empty() { vec![] } else { x.split_str_collect(&b).iter().map(|p| json!(p)).collect() };
    let c = CString::new(b.iter().take_while(|x| **x != 0).copied().collect::<Vec<u8>>()).unwrap();
    let (ccmp, ccmpnc, cdup, cstr) = unsafe {
        let d = bstr_dup_c(c.as_ptr());
        let dup = std::slice::from_raw_parts(bstr_ptr(d), bstr_len(d)).to_vec();
        bstr_free(d);
        let s = bstr_util_strdup_to_c(&x);
        let st = CStr::from_ptr(s).to_bytes().to_vec();
        libc::free(s as *mut libc::c_void);
        (bstr_cmp_c(&x, c.as_ptr()), bstr_cmp_c_nocase(&x, c.as_ptr()), dup, st)
    };
    json!({"cmp": ord(x.cmp_slice(&b)), "eq": x.eq_slice(&b), "cmpnc": ord(x.cmp_nocase(&b)), "eqnc": x.eq_nocase(&b),
        "cmpnct": ord(x.cmp_nocase_trimmed(&b)), "cmpncz": ord(x.cmp_nocase_nozero(&b)), "eqncz": x.eq_nocase_nozero(&b), "cmpnczt": ord(x.cmp_nocase_nozero_trimmed(&b)),
        "add": added.as_slice(), "noex": fits, "starts": x.starts_with(&b), "startsnc": x.starts_with_nocase(&b),
        "find": pos(x.index_of(&b)), "findnc": pos(x.index_of_nocase(&b)), "findncz": pos(x.index_of_nocase_nozero(&b)), "split": split,
        "ccmp": ccmp, "ccmpnc": ccmpnc, "cdup": cdup, "cstr": cstr})
}

/// {"keys", "ask"}: a table and a header table with these keys, and lookups
fn table(v: &Value) -> Value {
    use htp::bstr::Bstr;
    use htp::table::Table;
    use htp::transaction::{Header, Headers};
    let list = |x: &Value| -> Vec<Vec<u8>> { x.as_array().unwrap().iter().map(bytes).collect() };
    let (keys, ask) = (list(&v["keys"]), list(&v["ask"]));
    let mut t: Table<usize> = Table::with_capacity(1);
    let mut h = Headers::with_capacity(1);
    for (i, k) in keys.iter().enumerate() {
        t.add(Bstr::from(k.as_slice()), i);
        h.elements.push(Header::new(Bstr::from(k.as_slice()), Bstr::from(i.to_string().as_str())));
    }
    let num = |x: Option<&Header>| -> i64 { x.map(|y| String::from_utf8(y.value.to_vec()).unwrap().parse().unwrap()).unwrap_or(-1) };
    let get: Vec<i64> = ask.iter().map(|q| t.get_nocase(q).map(|e| e.1 as i64).unwrap_or(-1)).collect();
    let hget: Vec<i64> = ask.iter().map(|q| { let a = num(h.get_nocase(q)); let b = num(h.clone().get_nocase_mut(q).map(|x| &*x)); if a == b { a } else { -2 } }).collect();
    let hgetz: Vec<i64> = ask.iter().map(|q| { let a = num(h.get_nocase_nozero(q)); let b = num(h.clone().get_nocase_nozero_mut(q).map(|x| &*x)); if a == b { a } else { -2 } }).collect();
    let at: Vec<Value> = (0..t.size() + 1).filter_map(|i| t.get(i).map(|e| json!(e.0.as_slice()))).collect();
    let same = t.size() == h.size();
    json!({"size": if same { t.size() as i64 } else { -1 }, "get": get, "hget": hget, "hgetz": hgetz, "at": at})
}

pub fn run_fn(v: &Value) -> Value {
    let r = catch_unwind(AssertUnwindSafe(|| match v["fn"].as_str().unwrap() {
        "urlenc" => urlenc(v),
        "bstr" => bstr(v),
        "table" => table(v),
        "cnull" => json!({"ret": unsafe { crate::cnull::call(v["name"].as_str().unwrap()) }}),
        _ => panic!("fn"),
    }));
    let mut o = v.clone();
    o["out"] = r.unwrap_or_else(|_| json!({"panic": true}));
    o
}
