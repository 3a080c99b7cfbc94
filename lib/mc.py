"""Scripts for spec/MC.tla: messages made of known parts, what the environment
may do with them, and the replay of the behaviours TLC finds."""
import json
import random

from gen import HOOKS, b, CRLF


def L(x):
    return list(b(x))


def req(uri, method="GET", proto="HTTP/1.1", headers=(("Host", "a"),), body=None, chunks=None, trailer=(), eol=CRLF, fold=False):
    """a request and its parts"""
    hs = list(headers)
    framing, bd, wire = "none", b"", b""
    tr = b""
    if body is not None:
        framing, bd = "cl", b(body)
        hs.append(("Content-Length", "%d" % len(bd)))
        wire = bd
    elif chunks is not None:
        framing, bd = "chunked", b"".join(b(x) for x in chunks)
        hs.append(("Transfer-Encoding", "chunked"))
        tr = b"".join(b(n) + b": " + b(v) + CRLF for n, v in trailer) + CRLF
        wire = b"".join(b"%x\r\n" % len(x) + b(x) + CRLF for x in chunks) + b"0\r\n" + tr
    line = b(method) + b" " + b(uri) + (b" " + b(proto) if proto else b"")
    head = b"".join(b(n) + (b":" + eol + b" " if fold else b": ") + b(v) + eol for n, v in hs) + eol
    x = {"uri": L(uri), "method": L(method), "rline": L(line), "rprotos": L(proto), "meth": method, "rml": len(wire) - len(tr) if framing == "chunked" else len(bd), "rel": len(bd),
         "rtc": {"none": "NO_BODY", "cl": "IDENTITY", "chunked": "CHUNKED"}[framing], "rp": "COMPLETE",
         "rh": [[L(n), L((" " if False else "") + v)] for n, v in hs + list(trailer)]}
    if framing == "chunked":
        del x["rml"]
    return {"d": L(line + eol + head + wire), "line": L(line), "head": L(head), "body": L(bd), "trailer": L(tr), "framing": framing, "hasbody": framing != "none" and not (framing == "cl" and not bd),
            "connect": method == "CONNECT", "pre": [], "x": x}


def resp(status, msg="OK", proto="HTTP/1.1", headers=(), body=None, chunks=None, close=None, trailer=(), pre=(), nobody=False):
    hs = list(headers)
    framing, bd, wire, tr = "none", b"", b"", b""
    if body is not None:
        framing, bd = "cl", b(body)
        hs.append(("Content-Length", "%d" % len(bd)))
        wire = bd
    elif chunks is not None:
        framing, bd = "chunked", b"".join(b(x) for x in chunks)
        hs.append(("Transfer-Encoding", "chunked"))
        tr = b"".join(b(n) + b": " + b(v) + CRLF for n, v in trailer) + CRLF
        wire = b"".join(b"%x\r\n" % len(x) + b(x) + CRLF for x in chunks) + b"0\r\n" + tr
    elif close is not None:
        framing, bd = "close", b(close)
        wire = bd
    if nobody:
        wire, bd, framing = b"", b"", "none"
    line = b"%s %d %s" % (b(proto), status, b(msg))
    head = b"".join(b(n) + b": " + b(v) + CRLF for n, v in hs) + CRLF
    before, heads = b"", []
    for h in pre:      # interim responses, by their headers
        k = b"".join(b(n) + b": " + b(v) + CRLF for n, v in h) + CRLF
        heads.append(L(k))
        before += b"HTTP/1.1 100 Continue\r\n" + k
    x = {"sprotos": L(proto), "status": status, "msg": L(msg), "sel": len(bd), "sp": "COMPLETE", "sh": [[L(n), L(v)] for n, v in hs + list(trailer)]}
    if not nobody:
        x["stc"] = {"none": "NO_BODY", "cl": "IDENTITY", "chunked": "CHUNKED", "close": "IDENTITY"}[framing]
    return {"d": L(before + line + CRLF + head + wire), "line": L(line), "head": L(head), "body": L(bd), "trailer": L(tr), "framing": framing, "hasbody": False, "connect": False, "pre": heads, "x": x}


def script(sid, cs, ss, order="step", fine=1, gaps=0, closes=1, early=False, rclose=False, rms=0, odd=False, cfg=None, verdicts=(), depth=60):
    return {"id": sid, "cs": cs, "ss": ss, "order": order, "fine": fine, "gaps": gaps, "closes": closes, "early": early, "rclose": rclose, "rms": rms, "odd": odd,
            "cfg": dict({"snap": 3}, **(cfg or {})), "verdicts": list(verdicts), "depth": depth, "hyb": False, "skips": 0}


def staged(r, side):
    """a message of req or resp, told stage by stage"""
    q = side == "q"
    hs = r["x"]["rh" if q else "sh"]
    n = len(hs) - sum(1 for l in bytes(r["trailer"]).split(CRLF) if l)
    o = [["qs", [], 0], ["ql", r["line"], 0], ["qL", [], 0]] if q else [["ws", [], 0], ["wl", r["line"], 0], ["wL", [], 0]]
    add = lambda l: [[side + "h", a + v, len(a)] for a, v in l]
    o += add(hs[:n]) + [[side + "p", [], 1], [side + "H", [], 0], [side + "p", [], 2]]
    b2 = r["body"]
    o += [[side + "b", x, 0] for x in ([b2[:1], b2[1:]] if len(b2) > 1 else [b2] if b2 else [])]
    if q and hs[n:]:
        o += [["qp", [], 3]] + add(hs[n:]) + [["qH", [], 0]]
    o.append([side + "c", [], 0])
    return dict(r, d=[0] * len(o), ops=o)


def told(sid, cs, ss, order="step", skips=0, **kw):
    """a script whose messages are told stage by stage"""
    return dict(script(sid, [staged(x, "q") for x in cs], [staged(x, "w") for x in ss], order, 0, **kw), hyb=True, skips=skips, wire={"cs": cs, "ss": ss})


GET0, GET1, GET2 = req("/0"), req("/1"), req("/2")
OK0 = resp(200, body="x")
POST = req("/p", "POST", body="a\nb")
POSTC = req("/c", "POST", chunks=["ab", "c\n"], trailer=[("T", "1")])
RC = resp(201, chunks=["x\r\n", "yz"], trailer=[("U", "2")])
RS = resp(202, close="a\nb")
R204 = resp(204, "No")
RI = resp(203, body="q", pre=[[("I", "1")]])


def raw(d, side="c"):
    """bytes that are not a message made of parts"""
    return {"d": L(d), "line": [], "head": [], "body": [], "trailer": [], "framing": "none", "hasbody": False, "connect": False, "pre": [], "x": {}}


def scripts(pid, deep=False):
    """the scripts of a property"""
    S = script
    a = []
    if pid == "C01":
        a = [S("life", [POSTC], [RI], fine=2), S("pipe", [GET0, POST], [OK0, RS], "pipe", 0), S("early", [POST], [RC], early=True, closes=1, rclose=True, fine=0),
             S("flush", [POST, GET1], [RC], early=True, closes=2, cfg={"flush": True}, fine=0)]
    elif pid == "C02":
        a = [S("pipe", [GET0, POST, GET2], [OK0, RC, RI], "pipe", 0), S("free", [GET0, GET1], [OK0, R204, RS], "free", 0), S("step", [GET0, POSTC], [RI, RS], fine=1)]
    elif pid == "C03":
        a = [S("step", [POSTC, GET1], [RC, RI], fine=2), S("fold", [req("/f", headers=(("Host", "a"), ("X", "1")), fold=True, body="bc")], [RS], fine=2), S("pipe", [POST, GET1], [RI, RC], "pipe", 0)]
    elif pid == "C04":
        a = [S("chunks", [req("/c", "POST", chunks=["ab", "c\n", "0\r\n\r\n"])], [resp(200, chunks=["\r\n", "0", "xyz\n"])], fine=2), S("cl", [POST, req("/q", "PUT", body="GET / HTTP/1.1\r\n\r\n")], [RS], fine=1 if deep else 0, order="pipe"),
             S("until", [GET0], [resp(200, close="HTTP/1.1 200 OK\r\n\r\n")], fine=2), S("three", [POST, POSTC, POST], [OK0, RC, RS], "pipe", 0)]
    elif pid == "C05":
        G, R, X = raw("GET /0 HTTP/1.1\r\n\r\n"), raw("HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\nx"), 14 if deep else 7
        a = [S("stop", [POST, G], [R, R], "free", 0, gaps=1, verdicts=[{"h": "request_headers", "w": 1, "n": 1, "ret": "STOP"}], odd=True, depth=X),
             S("stop2", [G, G], [RC, R], "pipe", 0, gaps=1, verdicts=[{"h": "response_body_data", "w": 1, "n": 1, "ret": "STOP"}], odd=True, depth=X),
             S("error", [G, G], [RC, R], "pipe", 0, gaps=1, verdicts=[{"h": "response_line", "w": 1, "n": 1, "ret": "ERROR"}], odd=True, depth=X),
             S("limit", [G, raw("GET /" + "g" * 40)], [R, R], "free", 0, cfg={"field_limit": 30}, odd=True, depth=X),
             S("tunnel", [req("a:1", "CONNECT"), raw("xyz\nuv")], [resp(200), raw("ab\ncd")], "step", 0, gaps=1, odd=True, depth=X)]
        for st in (101, 200, 403, 407):    # one side has ended, the other would change what both are
            m = req("/u") if st == 101 else req("a:1", "CONNECT")
            r = resp(st, headers=() if st in (101, 200) else (("Content-Length", "0"),))
            for v in ("STOP", "ERROR"):
                a += [S("conn%d%s" % (st, v), [m, raw("xy\nuv")], [r, R], "free", 0, odd=True, verdicts=[{"h": h, "w": 1, "n": 1, "ret": v}], depth=7 if deep else 5)
                      for h in ("request_line", "request_headers", "response_headers", "response_complete")]
    elif pid == "C06":
        C6, R6 = req("/c", "POST", chunks=["ab"], trailer=[("T", "1")]), resp(201, chunks=["x"], trailer=[("U", "2")], pre=[[("I", "1")]])
        for i, h in enumerate(HOOKS):
            if not h.startswith("tx_"):
                for ret in ("STOP", "ERROR", "DECLINED"):
                    a.append(S("v-%s-%s" % (h, ret), [C6, GET1], [R6, OK0], "step", 0, cfg={"two": True}, verdicts=[{"h": h, "w": 1 + i % 2, "n": 1 + i // 2 % 2, "ret": ret}], depth=30 if deep else 7))
    elif pid == "C07":
        for st in (200, 299, 300, 199, 407, 500):
            a.append(S("con%d" % st, [req("a:1", "CONNECT"), GET1], [resp(st, headers=(("Content-Length", "0"),)), OK0], "free", 0, odd=True, depth=9))
        a += [S("bin", [req("a:1", "CONNECT"), raw("\x16\x03\x00zz")], [resp(200), raw("\x16\x03")], "free", 0, odd=True, depth=9),
              S("up", [GET0, raw("t\nt")], [resp(101, headers=(("Upgrade", "x"),)), raw("uv\n")], "free", 0, odd=True, depth=9)]
    elif pid == "C08":
        D = 12 if deep else 7
        a = [S("gaps", [POST, GET1], [RS], "pipe", 0, gaps=2 if deep else 1, early=True, depth=D), S("con", [req("a:1", "CONNECT"), GET1], [resp(407, headers=(("Content-Length", "0"),)), OK0], "free", 1, odd=True, depth=D - 1),
             S("refuse", [req("a:1", "CONNECT"), GET1], [resp(403, headers=(("Content-Length", "0"),)), OK0], "free", 0, odd=True, depth=D), S("accept", [req("a:1", "CONNECT"), raw("x\ny")], [resp(200), raw("y\nz")], "free", 0, odd=True, depth=D),
             S("stop", [GET0, GET1], [OK0, RC], "free", 0, verdicts=[{"h": "response_headers", "w": 1, "n": 2, "ret": "STOP"}], depth=D)]
    elif pid == "C09":
        for lim in (28, 33, 34, 40):
            a.append(S("lim%d" % lim, [req("/abcdefghij", headers=(("Host", "a"), ("Xy", "12345678901234567890")), body="0123")], [resp(200, "A rather long message", headers=(("K", "12345678901"),), chunks=["abc"])],
                       fine=2 if lim == 33 else 1, odd=True, cfg={"field_limit": lim}))
    elif pid == "C10":
        a = [S("max", [GET0, GET1, GET2], [OK0, R204, RC], "pipe", 0, rms=1, odd=True, cfg={"max_tx": 2}), S("auto", [GET0, POST, GET2], [OK0, RI, RC], "pipe", 0, cfg={"auto_destroy": True}, closes=1, early=True),
             S("rm", [GET0, POST], [RI, RS], "pipe", 0, rms=2), S("automax", [GET0, GET1, GET2], [OK0, R204, OK0], "pipe", 0, odd=True, cfg={"auto_destroy": True, "max_tx": 1})]
    elif pid == "C11":
        hs = [[], [("Content-Length", "3")], [("Content-Length", "x")], [("Transfer-Encoding", "chunked")], [("Transfer-Encoding", "foo")], [("Content-Length", "3"), ("Content-Length", "3")], [("Content-Length", "3"), ("Content-Length", "4")],
              [("Transfer-Encoding", "chunked"), ("Content-Length", "3")], [("Content-Length", "3"), ("Transfer-Encoding", "chunked")]]
        for i, h in enumerate(hs):
            for pr in ("HTTP/1.1", "HTTP/1.0"):
                a.append(S("f%d%s" % (i, pr[-1]), [raw("POST /f " + pr + "\r\nHost: a\r\n" + "".join("%s: %s\r\n" % x for x in h) + "\r\n3\r\nabc\r\n0\r\n\r\n"), GET1], [], "free", 0, odd=True, depth=8))
    elif pid == "C12":
        for st in (200, 204, 304, 100, 101, 199, 404):
            for i, h in enumerate([[], [("Content-Length", "2")], [("Transfer-Encoding", "chunked")], [("Transfer-Encoding", "chunked"), ("Content-Length", "2")]]):
                a.append(S("r%d-%d" % (st, i), [GET0], [raw("HTTP/1.1 %d X\r\n" % st + "".join("%s: %s\r\n" % x for x in h) + "\r\n2\r\nab\r\n0\r\n\r\n")], "step", 0, odd=True, depth=9))
        a.append(S("head", [req("/h", "HEAD"), GET1], [resp(200, body="abc", nobody=True), RI], fine=1))
    elif pid == "C13":
        D = 30 if deep else 9
        a = [S("cl", [req("/p", "POST", body="abcdef"), req("/1", headers=())], [resp(200, body="uvwxyz"), OK0], "step", 0, gaps=2 if deep else 1, closes=0, depth=D), S("until", [req("/0", headers=())], [resp(200, close="abc\ndef")], "step", 1, gaps=2, depth=D),
             S("in", [req("/p", "POST", body="abc")], [resp(200, body="uvw")], "step", 0, gaps=3, closes=0, depth=D + 1),
             S("chunks", [POSTC], [RC], "step", 0, gaps=1, depth=D), S("free", [POST], [RS], "free", 0, gaps=1, depth=D - 1), S("first", [GET0], [OK0], "free", 0, gaps=2, depth=D - 2)]
    elif pid == "C14":
        a = []
    elif pid == "C15":
        hs = [("Host", "a"), ("X", "1"), ("Y-y", "two words"), ("Empty", "")]
        a = [S("req", [req("/h", headers=hs)], [resp(200, headers=hs[1:], body="b")], fine=2), S("fold", [req("/h", headers=hs[:3], fold=True)], [RS], fine=1)]
    elif pid == "C18":
        for fl in (False, True):
            a += [S("cut%d" % fl, [POST, GET1], [RI], "pipe", 1, early=True, closes=2, cfg={"flush": fl}, depth=14), S("until%d" % fl, [GET0], [RS], "step", 1, early=True, rclose=True, cfg={"flush": fl}, depth=12),
                  S("auto%d" % fl, [GET0, GET1], [OK0, RC], "pipe", 0, early=True, cfg={"flush": fl, "auto_destroy": True})]
    elif pid == "C19":
        a = [S("clean", [POSTC, GET1], [RC, RI], fine=0, cfg={"log_level": "DEBUG2"}), S("odd", [raw("GET / HTTP/1.1\r\nHost: a\r\nHost: b\r\nX Y: 1\r\nnocolon\r\n\r\n")], [raw("HTTP/1.1 999 X\r\nContent-Length: 1\r\nContent-Length: 2\r\nno\r\n\r\nab")], "step", 1, odd=True)]
    elif pid == "C20":
        a = [S("host", [raw("GET http://u:p@h:81/p?q#f HTTP/1.1\r\nHost: g\r\n\r\n")], [], "free", 2, odd=True), S("auth", [raw("GET / HTTP/1.1\r\nHost: a:9\r\nAuthorization: Basic dTpw\r\n\r\n")], [], "free", 2, odd=True)]
    elif pid == "C21":
        a = [S("free", [POSTC, GET1], [RC], "free", 0, gaps=1, early=True, closes=2, rms=1, rclose=True, depth=9 if deep else 7), S("junk", [raw("\r\nG\x00 \n:\r\n\n")], [raw("HTT\nP\r\n\r\n")], "free", 2, odd=True, early=True, depth=12)]
    elif pid == "C22":
        a = [S("blocks", [POSTC], [resp(200, chunks=["q"], trailer=[("U", "2"), ("V", "3")], pre=[[("I", "1")]])], fine=2), S("two", [POST, POSTC], [RI, RC], "pipe", 0),
             S("three", [GET0, POSTC, GET2], [RI, RC, RI], "step", 1 if deep else 0)]
    elif pid == "C23":
        a = [S("v09", [raw("GET /x\r\n")], [raw("<b>\n</b>")], "step", 2, odd=True), S("more", [raw("GET /x\n"), raw("GET /y HTTP/1.1\r\n\r\n")], [raw("ab\n")], "free", 1, odd=True, depth=10),
             S("head", [raw("GET /x\r\nHost: a\r\n\r\n")], [OK0], "free", 1, odd=True, depth=9)]
    elif pid == "C24":
        a = [S("m-" + mt, [req("/u", mt)], [resp(200 + i, "M%d" % i, body="b")], fine=0) for i, mt in enumerate(["GET", "POST", "PUT", "DELETE", "OPTIONS", "TRACE", "PATCH", "REPORT"])] + \
            [S("odd", [raw("  GET \t /x  HTTP/1.0 \r\nHost: a\r\n\r\n")], [raw(" HTTP/1.1  404  Not  Found \r\n\r\n")], "step", 2, odd=True)]
    elif pid == "C29":
        def rej(uri, code, **cfg):
            q, o = req(uri), req("/ok", "POST", body="%zz")
            q["x"]["exp"], o["x"]["exp"] = code, 0
            return lambda sid, k: S(sid, [q, o], [resp(200, "OK", body="%00"), OK0], "pipe", 0, cfg=cfg) if k % 15 == 8 else S(sid, [q], [OK0], "step", 2 if k % 15 == 0 else 0, cfg=cfg)
        every = dict(sep_unwanted=404, nul_raw_unwanted=404, ctl_unwanted=404, u_unwanted=404, inv_unwanted=404, nul_enc_unwanted=404, utf8_unwanted=404)
        ts = [rej("/a%zz/b", 400, inv_unwanted=400), rej("/a%zz/b%", 404, inv_unwanted=404, inv_handling="REMOVE"), rej("/a%zz%41", 404, inv_unwanted=404, inv_handling="PROCESS"), rej("/a%zz", 0), rej("/a%2fb", 404, sep_unwanted=404),
              rej("/a%2fb/c", 400, sep_unwanted=400, sep_decode=True), rej("/a%5cb", 400, sep_unwanted=400, backslash=True), rej("/a%5cb", 0, sep_unwanted=400), rej("/a%00b", 404, nul_enc_unwanted=404), rej("/a%00b", 404, nul_enc_unwanted=404, nul_enc_term=True),
              rej("/a\x00b", 400, nul_raw_unwanted=400), rej("/a\x00b", 400, nul_raw_unwanted=400, nul_raw_term=True), rej("/a\x00%zz", 400, nul_raw_unwanted=400, nul_raw_term=True, inv_unwanted=404), rej("/a\x01b", 404, ctl_unwanted=404), rej("/a%1fb", 404, ctl_unwanted=404),
              rej("/a%20b", 0, **every), rej("/a%u0041b", 404, u_unwanted=404, u_decode=True), rej("/a%u0041b", 0, **every), rej("/a%u00", 400, inv_unwanted=400, u_decode=True), rej("/a%u002fb", 404, sep_unwanted=404, u_unwanted=400, u_decode=True),
              rej("/a%ffb", 404, utf8_unwanted=404), rej("/a%c3%a9b", 0, **every), rej("/a%zz%00", 404, inv_unwanted=400, nul_enc_unwanted=404), rej("/%00a%zz/c", 400, inv_unwanted=400, nul_enc_unwanted=404), rej("/%ff%zz", 404, inv_unwanted=400, utf8_unwanted=404),
              rej("/abc/d+e?%zz=%00#%ff", 0, **every), rej("/%zz", 400, personality="APACHE_2"), rej("/%zz/%01", 400, personality="IIS_7_5"), rej("/%u0041", 400, personality="IIS_6_0"), rej("/%zz%01%00%2f%u0041", 0, personality="IDS"), rej("/%zz%01", 0, personality="IIS_5_1")]
        a = [t("rej%d" % i, i) for i, t in enumerate(ts)]
    elif pid == "C28":
        PO = req("http://u:p@h:81/a/../b?q=1#f", "PUT", headers=(("Host", "h:81"), ("Authorization", "Basic dTpw"), ("Content-Type", "Text/Plain; x"), ("X", "1")), chunks=["ab", "c"], trailer=[("T", "1")])
        RF = resp(404, "Not Found", headers=(("Content-Type", "text/HTML;c"), ("Y", "2")), body="xyz")
        a = [told("step", [GET0, PO], [RF, OK0]), told("pipe", [GET0, PO, POST], [RF, OK0, R204], "pipe"), told("early", [POST], [RF], "free"), told("head", [req("/h", "HEAD"), GET1], [resp(200), RF], "pipe"),
             told("skip", [POST], [RF], "pipe", skips=2 if deep else 1), told("skips", [GET0, POST], [OK0, RF], "step", skips=2 if deep else 1)]
        for i, h in enumerate(h for h in HOOKS if not h.startswith("tx_") and "_data" not in h):
            for ret in ("STOP", "ERROR", "DECLINED"):
                a.append(told("v-%s-%s" % (h, ret), [GET0, PO], [RF, OK0], "pipe" if deep else "step", cfg={"two": True}, verdicts=[{"h": h, "w": 1 + i % 2, "n": 1 + i // 2 % 2, "ret": ret}]))
    for x in a:
        if deep and x["fine"] == 2:
            x["fine"] = 3
    return a


def behaviours(r, pid, limit, seed, deep=False):
    """runs TLC on the scripts of the property; the behaviours it found, as scenarios"""
    ss = scripts(pid, deep)
    if not ss:
        return []
    f = r.path("scripts")
    with open(f, "w") as h:
        for s in ss:
            h.write(json.dumps(s) + "\n")
    o = r.tlc("MC", {"SCRIPTS": f}, workers=8, heap="12g" if deep else "6g")
    if o["rc"] != 0 or "Model checking completed. No error" not in o["out"]:
        i = o["out"].find("Error")
        br = [l for l in o["out"].splitlines() if l.startswith('"BROKEN')]
        if br:
            raise r.error("the specification breaks a property: " + "\n".join(sorted(br, key=len)[:8]))
        raise r.error("TLC on the specification (rc %d): %s" % (o["rc"], o["out"][i:i + 4000]))
    hs = set()
    for l in o["out"].splitlines():
        if l.startswith('"HIST '):
            x = json.loads(json.loads(l)[5:])
            hs.add((x[0],) + tuple(tuple(y) for y in x[1:]))
    inner = {h[:-1] for h in hs}
    leaves = sorted(h for h in hs if h not in inner)
    r.notes["model"] = {"states": o["distinct"], "transitions": o["gen"], "scripts": [s["id"] for s in ss], "behaviours": len(leaves), "invariants": "C01-C10, C13, C18, C21, C22 and the fields of the messages (spec/MC.tla)"}
    r.states += o["distinct"]
    r.transitions += o["gen"]
    random.Random(seed).shuffle(leaves)
    out, n = [], 0
    for h in leaves:
        s = ss[h[0] - 1]
        c = [x for m in s["cs"] for x in m["d"]]
        v = [x for m in s["ss"] for x in m["d"]]
        st = [{"op": "open"}]
        sc, sv = ([o for m in s[k] for o in m["ops"]] if s["hyb"] else [] for k in ("cs", "ss"))
        for op, x, y in h[1:]:
            if op in ("C", "S"):
                o = (sc if op == "C" else sv)[x]
                st.append({"op": o[0], "d": o[1], "n": o[2]})
                continue
            st.append({"op": op, "d": c[x:y]} if op == "c" else {"op": op, "d": v[x:y]} if op == "s" else {"op": op} if op in ("close", "rclose") else {"op": op, "n": x})
        n += len(st)
        if n > limit:
            break
        out.append({"id": "mc-%s-%d" % (s["id"], len(out)), "cfg": s["cfg"], "verdicts": s["verdicts"], "steps": st, "meta": {}})
    r.notes["model"]["replayed"] = len(out)
    return out
