"""What each property looks at, and on which scenarios.

proj: the observations of the specification that the property speaks of (see
spec/Trace.tla).  fams: (weight, generator of one scenario).  Weights are
shares of the calls (steps) of a run."""
from gen import HOOKS
from mutate import mutate
from stages import stages

TXHOOKS = ["request_start", "request_line", "request_uri_normalize", "request_headers", "request_trailer", "request_complete",
           "response_start", "response_line", "response_headers", "response_trailer", "response_complete", "transaction_complete"]
BODYHOOKS = ["request_body_data", "response_body_data", "tx_request_body_data", "tx_response_body_data"]
RAWHOOKS = ["request_header_data", "request_trailer_data", "response_header_data", "response_trailer_data"]


def ev(*hs):
    return ["ev." + h for h in hs]


def tx(s):
    return ["tx." + f for f in s.split()]


def flags(s):
    return ["flag." + f for f in s.split()]


def logs(s):
    return ["log." + c for c in s.split()]


EVALL = ev(*TXHOOKS, *BODYHOOKS, *RAWHOOKS)
TXALL = tx("i rp sp meth rproto sproto p09 status rtc stc rml rel sml sel rcl scl flags c100 h2c rign sign rline method uri rprotos sline sprotos statuss msg "
           "rh sh rce sce rcep scep host port rct sct auth auser apass atok rreps sreps puri rawuri nuri cnuri")
PATHFLAGS = "PATH_ENCODED_NUL PATH_RAW_NUL PATH_INVALID_ENCODING PATH_INVALID PATH_OVERLONG_U PATH_ENCODED_SEPARATOR PATH_UTF8_VALID PATH_UTF8_INVALID PATH_UTF8_OVERLONG PATH_HALF_FULL_RANGE"

P = {}


def prop(pid, proj, fams, quick=60000, thorough=1500000, **kw):
    P[pid] = dict(proj=proj, fams=fams, quick=quick, thorough=thorough, **kw)


prop("C01", EVALL + ["ev.progress", "ev.nodata"] + tx("rp sp"),
     [(5, "life"), (1, "closing"), (1, "connect"), (1, "upgrade"), (1, "v09"), (1, "gaps"), (1, "verdict"), (1, "pairing"), (1, "odd_chunked")], quick=90000)
prop("C02", ev("request_start", "request_line", "request_complete", "response_start", "response_line", "response_headers", "response_complete", "transaction_complete", "response_body_data", "request_body_data")
     + ["ids", "ri", "si", "size", "pipe"] + tx("i rp sp uri status sh meth sline p09") + logs("UNABLE_TO_MATCH_RESPONSE_TO_REQUEST"),
     [(6, "pairing"), (1, "expect"), (1, "life"), (1, "connect"), (1, "txlimit"), (1, "removal")])
prop("C03", ["*"], [(1, "one_piece")], quick=15000, groups=True)
prop("C04", ev(*BODYHOOKS, "request_complete", "response_complete") + tx("rml rel sml sel rcl scl rtc stc"),
     [(6, "bodies"), (3, "odd_chunked"), (1, "life"), (1, "gaps")], quick=90000)
prop("C05", ["ret", "rs", "ss"] + EVALL + TXALL + ["ids"],
     [(6, "sticky"), (1, "connect"), (1, "upgrade"), (1, "verdict"), (1, "gaps"), (1, "limits")])
prop("C06", ["ret", "rs", "ss"] + EVALL + tx("rp sp"), [(1, "verdict")], quick=70000, systematic="verdicts")
prop("C07", ["ret", "cons", "rs", "ss", "ri", "si", "size"] + EVALL + tx("rp sp meth status uri h2c"),
     [(4, "connect"), (2, "upgrade"), (1, "life")])
prop("C08", ["ret", "cons", "rc", "sc"], [(2, "life"), (1, "gaps"), (1, "connect"), (1, "upgrade"), (1, "sticky"), (1, "chaos"), (1, "verdict"), (1, "v09"), (1, "limits")], quick=80000)
prop("C09", ["ret", "rs", "ss"] + tx("rp sp rline uri rh sh sline msg rml sml status") + EVALL + logs("REQUEST_FIELD_TOO_LONG RESPONSE_FIELD_TOO_LONG"),
     [(6, "limits"), (1, "life")])
prop("C10", ["ret", "rs", "ss", "ids", "size", "ri", "si"] + ev("request_start", "request_complete", "response_start", "response_complete", "transaction_complete") + TXALL,
     [(3, "txlimit"), (3, "removal"), (1, "pairing")])
prop("C11", ["ret", "rs"] + tx("rtc rcl rml rel meth rproto rp uri") + ev("request_body_data", "request_complete", "request_headers", "request_start")
     + flags("REQUEST_SMUGGLING REQUEST_INVALID REQUEST_INVALID_T_E REQUEST_INVALID_C_L"),
     [(5, "req_framing"), (1, "expect")], quick=70000)
prop("C12", ["ret", "ss", "si"] + tx("stc scl sml sel sp status c100 sh sct") + ev("response_body_data", "response_complete", "response_headers", "response_line", "response_start"),
     [(5, "resp_framing"), (1, "odd_chunked"), (1, "expect")], quick=70000)
prop("C13", ["ret", "rs", "ss", "rc", "sc", "ri", "si"] + EVALL + tx("rml rel sml sel rp sp status uri") + flags("REQUEST_MISSING_BYTES RESPONSE_MISSING_BYTES MISSING_BYTES") + logs("INVALID_GAP"),
     [(6, "gaps"), (1, "sticky")])
prop("C14", ["ret", "rs", "ss"] + ev(*BODYHOOKS, "response_complete", "request_complete") + tx("rel sel rml sml rce sce rcep scep rp sp")
     + logs("TOO_MANY_ENCODING_LAYERS REQUEST_TOO_MANY_LZMA_LAYERS RESPONSE_TOO_MANY_LZMA_LAYERS COMPRESSION_BOMB ABNORMAL_CE_HEADER LZMA_MEMLIMIT_REACHED COMPRESSION_BOMB_DOUBLE_LZMA"),
     [(5, "decomp"), (2, "decomp_limits"), (1, "bomb")], quick=40000)
prop("C15", tx("rh sh rreps sreps") + flags("FIELD_UNPARSEABLE FIELD_INVALID FIELD_FOLDED FIELD_REPEATED FIELD_RAW_NUL INVALID_FOLDING"), [(1, "headers_sc")], quick=50000)
prop("C16", ev("param") + tx("uri puri"), [(1, "query_sc")], quick=15000, thorough=400000, url=True, near=9000)
prop("C17", tx("puri nuri cnuri") + flags(PATHFLAGS), [(1, "path_sc")], quick=12000, thorough=400000, near=12000)
prop("C18", ["ret", "rs", "ss", "ids", "size"] + EVALL + TXALL, [(6, "closing"), (1, "life"), (1, "v09")], quick=70000)
prop("C19", ["logs"], [(5, "logging"), (1, "clean"), (1, "headers_sc"), (1, "req_framing"), (1, "resp_framing"), (1, "lines"), (1, "decomp_limits"), (1, "gaps"), (1, "limits"), (1, "uri_sc")], quick=90000)
prop("C20", tx("puri rawuri nuri host port auth auser apass atok") + flags("HOST_MISSING HOST_AMBIGUOUS HOSTU_INVALID HOSTH_INVALID AUTH_INVALID"), [(1, "uri_sc")], quick=15000, thorough=400000, near=12000)
prop("C21", ["ret"], [(3, "chaos"), (1, "urlchaos")], quick=60000, fuzz=True)
prop("C22", ev(*RAWHOOKS), [(6, "rawdata"), (1, "life"), (1, "connect")], quick=90000)
prop("C23", ["ret", "ext09", "size", "ri", "si", "rs", "ss"] + EVALL + tx("p09 rproto rp sp meth uri rline rh sh stc sml sel status"), [(1, "v09")], quick=40000)
prop("C24", tx("rline method meth uri rprotos rproto p09 sline sprotos sproto statuss status msg rign sign") + flags("STATUS_LINE_INVALID REQUEST_INVALID") + ev("response_body_data", "request_line", "response_line"),
     [(1, "lines")], quick=40000, near=12000)


# what the C interface can say and show
CHOOKS = [h for h in TXHOOKS + BODYHOOKS + RAWHOOKS if h not in ("request_uri_normalize", "response_line", "tx_request_body_data")]
CCFG = set("""personality two txhook snap field_limit max_tx auto_destroy flush parse_urlencoded allow_space_uri req_decomp layer_limit lzma_layers lzma_memlimit
bomb_limit double_decode_path double_decode_query backslash lowercase sep_compress sep_decode plusspace nul_raw_term nul_enc_term u_decode inv_handling include_all
bestfit bestfit_repl""".split())
prop("C25", ["ret", "cons", "size", "rc", "sc", "ids", "started", "logcodes", "userdata"] + ev(*CHOOKS) + ["ev.progress"]
     + tx("i rp sp meth rproto sproto p09 status rtc rml rel sml sel rcl scl flags h2c rline method uri rprotos sline sprotos statuss msg rh sh rce host port rct sct auth puri "
          "exp curi ud rhget shget rhfl shfl rhend shend"),
     [(2, "capi_any")], quick=50000, mode="capi", cnull=True)


CFUNCTIONS = """htp_tx_destroy htp_tx_normalized_uri htp_tx_cfg htp_tx_get_user_data htp_tx_set_user_data htp_tx_request_line htp_tx_request_method
htp_tx_request_method_number htp_tx_request_uri htp_tx_request_protocol htp_tx_request_protocol_number htp_tx_is_protocol_0_9 htp_tx_is_http_2_upgrade
htp_tx_parsed_uri htp_tx_request_headers htp_tx_request_headers_size htp_tx_request_header htp_tx_request_header_index htp_tx_request_transfer_coding
htp_tx_request_content_encoding htp_tx_request_content_type htp_tx_request_content_length htp_tx_request_auth_type htp_tx_request_hostname
htp_tx_request_port_number htp_tx_request_message_len htp_tx_request_entity_len htp_tx_response_line htp_tx_response_protocol
htp_tx_response_protocol_number htp_tx_response_status htp_tx_response_status_number htp_tx_response_status_expected_number htp_tx_response_message
htp_tx_response_headers htp_tx_response_headers_size htp_tx_response_header htp_tx_response_header_index htp_tx_response_message_len
htp_tx_response_entity_len htp_tx_response_content_length htp_tx_response_content_type htp_tx_flags htp_tx_request_progress htp_tx_response_progress
htp_tx_index htp_tx_register_response_body_data htp_tx_data_tx htp_tx_data_data htp_tx_data_len htp_tx_data_is_empty htp_headers_get htp_headers_flags
htp_headers_get_index htp_headers_size htp_header_name htp_header_name_ptr htp_header_flags htp_header_name_len htp_header_value htp_header_value_ptr
htp_header_value_len htp_uri_scheme htp_uri_username htp_uri_password htp_uri_hostname htp_uri_port htp_uri_port_number htp_uri_path htp_uri_query
htp_uri_fragment htp_log_message htp_log_file htp_log_code htp_log_free htp_conn_request_data_counter htp_conn_response_data_counter htp_conn_next_log
htp_connp_close htp_connp_destroy_all htp_connp_connection htp_connp_user_data htp_connp_set_user_data htp_connp_open htp_connp_request_close
htp_connp_request_data htp_connp_response_data htp_connp_tx_size htp_connp_tx htp_connp_get_response_tx htp_connp_get_request_tx
htp_connp_request_data_consumed htp_connp_response_data_consumed htp_config_destroy htp_config_register_log htp_config_register_request_body_data
htp_config_register_request_complete htp_config_register_request_headers htp_config_register_request_header_data htp_config_register_request_line
htp_config_register_request_start htp_config_register_request_trailer htp_config_register_request_trailer_data htp_config_register_response_body_data
htp_config_register_response_complete htp_config_register_response_headers htp_config_register_response_header_data htp_config_register_response_start
htp_config_register_response_trailer htp_config_register_response_trailer_data htp_config_register_transaction_complete
htp_config_set_backslash_convert_slashes htp_config_set_bestfit_replacement_byte htp_config_set_compression_bomb_limit
htp_config_set_compression_time_limit htp_config_set_convert_lowercase htp_config_set_field_limit htp_config_set_lzma_memlimit
htp_config_set_lzma_layers htp_config_set_max_tx htp_config_set_nul_encoded_terminates htp_config_set_nul_raw_terminates
htp_config_set_parse_request_cookies htp_config_set_path_separators_compress htp_config_set_plusspace_decode htp_config_set_path_separators_decode
htp_config_set_request_decompression htp_config_set_decompression_layer_limit htp_config_set_allow_space_uri htp_config_set_server_personality
htp_config_set_u_encoding_decode htp_config_set_url_encoding_invalid_handling htp_config_set_utf8_convert_bestfit
htp_config_set_double_decode_normalized_query htp_config_set_double_decode_normalized_path htp_config_set_normalized_uri_include_all
htp_config_set_tx_auto_destroy htp_config_set_flush_incomplete htp_config_set_parse_urlencoded""".split()

prop("C29", tx("exp"), [(4, "reject_sc"), (1, "path_sc"), (1, "uri_sc"), (1, "lines"), (1, "life")], quick=20000, thorough=400000, near=14000, url=True, urlexp=True)
prop("C28", ["*"], [(1, "stages")], quick=50000, thorough=1000000, mutated=0)
prop("C27", ["ret", "rc", "sc", "logcodes"], [(1, "facts")], quick=40000, thorough=600000, mutated=0)

prop("C26", ["*"], [], quick=1, thorough=8, strings=16000, part=1)


def strings(f, n, small):
    """byte strings and tables: all small cases, then random ones"""
    import itertools
    if small:
        al = [0, 32, 97, 65, 98]
        words = [list(w) for k in range(4) for w in itertools.product(al, repeat=k)]
        short = [w for w in words if len(w) <= 2]
        for a in words:
            for b in short:
                yield {"fn": "bstr", "a": a, "b": b, "cap": (len(a) + len(b)) % 4}
    for _ in range(n):
        k = f.r.choice([b"aAbB\x00 ", b"aAzZ@[`{\t\r\n\x0b\x0c \x00", bytes(range(128)), b"abcABC-", b"aA \x00\x7f\x80\x85\xa0\xc3\xe0\xe9\xff",
                        bytes(x for x in range(256) if x not in (0xc2, 0xe1, 0xe2, 0xe3))])  # without the first bytes of white space outside ASCII
        a = f.soup(f.r.choice([0, 1, 2, 3, 5, 8, 13, 30]), k)
        j = f.r.randint(0, len(a))
        b = f.r.choice([lambda: f.soup(f.r.randint(0, 4), k), lambda: a[j:j + f.r.randint(0, 5)], lambda: f.case(a), lambda: f.case(a[j:]), lambda: f.case(a[:j]), lambda: f.case(a.strip()),
                        lambda: f.case(a.replace(b"\0", b"")), lambda: f.case(a.replace(b"\0", b"")[j:]), lambda: f.case(a.strip().replace(b"\0", b"")), lambda: a[:j] + f.soup(1, k)])()
        yield {"fn": "bstr", "a": list(a), "b": list(b), "cap": f.r.choice([0, 1, 2, 3, len(b), len(b) + 1])}
    for _ in range(n // 4):
        names = [f.soup(f.r.randint(0, 3), b"aAb\x00 \t\x0bB" if f.chance(0.8) else b"aA\x00 \xe0\xc0\xff") for _ in range(f.r.randint(0, 6))]
        ask = [f.case(f.r.choice(names).replace(b"\0", b"" if f.chance(0.6) else b"\0").strip() if names and f.chance(0.7) else f.soup(f.r.randint(0, 3), b"aAbB ")) for _ in range(4)]
        yield {"fn": "table", "keys": [list(x) for x in names], "ask": [list(x) for x in ask]}


def capi(f, s0):
    """the same scenario as far as the C interface can express it"""
    s = dict(s0, cfg={k: v for k, v in s0["cfg"].items() if k in CCFG}, verdicts=[v for v in s0.get("verdicts", []) if v["h"] in CHOOKS])
    if "resp_decomp" in s0["cfg"] or "bomb_ratio" in s0["cfg"]:
        s["meta"] = {}
    s["cfg"]["snap"] = 3
    if f.chance(0.2):
        s["cfg"]["include_all"] = f.chance(0.5)
    if f.chance(0.1):
        s["cfg"]["txhook"] = True
    return s


def capi_any(f):
    fam = f.r.choice("life pairing bodies sticky verdict verdict connect upgrade limits txlimit removal req_framing resp_framing gaps decomp headers_sc headers_sc closing uri_sc path_sc query_sc v09 lines rawdata expect odd_chunked decomp_limits".split())
    return capi(f, getattr(f, fam)())


ADDRESSES = ["10.0.0.1", "10.0.0.2", "192.168.255.254", "0.0.0.0", "255.255.255.255", "::1", "::", "fe80::1", "2001:db8::8a2e:370:7334"]


def facts(f):
    """who, whom, when: opening and reopening at any time, times given or not, through both interfaces"""
    fam = f.r.choice("life sticky verdict connect upgrade gaps closing v09 chaos txlimit limits".split())
    s = getattr(f, fam)()
    if f.chance(0.3):
        s = mutate(f.r, s)
    c = f.chance(0.5)
    if c:
        s = capi(f, s)
    elif f.chance(0.4):
        s["cfg"]["log_level"] = f.r.choice(["NONE", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG", "DEBUG2"])
    s["cfg"]["snap"] = 1
    st = [dict(x) for x in s["steps"]]
    for _ in range(f.r.choice([0, 0, 1, 2])):
        st.insert(f.r.randint(0, len(st)), {"op": "open"})
    if st and st[0]["op"] == "open" and f.chance(0.15):
        st.pop(0)
    given = f.r.choice([0.2, 0.7, 1])
    port = lambda: f.r.choice([0, 1, 80, 65535, 40000, -1, 65536, 65616, -65456, None] if not c else [0, 1, 80, 65535, 40000, -1, 65536, 65616, 131072, -65456])
    addr = lambda: f.r.choice(ADDRESSES * 2 + [None, "", "10.0.0.256", "localhost", "1.2.3", "10.0.0.1 ", ":::1", "\xe9", "10.0.0.01", "::1%lo"])
    for x in st:
        if f.chance(given):
            x["t"] = [f.r.choice([0, 1, 5, 1600000000, 2147483647, -1, -1000, f.r.randint(0, 2 * 10**9)]), f.r.choice([0, 1, 5, 999999, f.r.randint(0, 999999)])]
            if c and f.chance(0.05):
                x["t"] = ["far", 0]
        if x["op"] == "open" and f.chance(0.85):
            x["a"] = {"ca": addr(), "cp": port(), "sa": addr(), "sp": port()}
    return dict(s, steps=st, meta={"facts": True, "capi": c})


def one_piece(f):
    """conversations whose messages come in one piece each (the reference executions of C03)"""
    g = f.cut_group("x", 0)
    return dict(g[0], meta={})


def urlchaos(f):
    return f.r.choice([f.path_sc, f.uri_sc, f.query_sc, f.decomp, f.headers_sc, f.bomb, f.expect])()


MASS = "life life pairing bodies verdict connect upgrade limits txlimit removal req_framing resp_framing gaps decomp headers_sc closing v09 lines expect odd_chunked chaos".split()
for k in ("C01", "C02", "C04", "C05", "C08", "C10", "C21"):
    P[k]["mass"] = 500 if k != "C21" else 2000


def scenario(f, fam):
    if fam == "one_piece":
        return one_piece(f)
    if fam == "capi_any":
        return capi_any(f)
    if fam == "facts":
        return facts(f)
    if fam == "stages":
        return stages(f)
    if fam == "urlchaos":
        return urlchaos(f)
    return getattr(f, fam)()


def systematic(f, kind):
    """the part that does not depend on chance"""
    if kind == "verdicts":
        for h in HOOKS:
            for ret in ("STOP", "ERROR", "DECLINED"):
                for n in (1, 2, 0):
                    for _ in range(3):
                        yield f.verdict(h, ret, n)
