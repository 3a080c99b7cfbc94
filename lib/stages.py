"""Messages driven stage by stage (hybrid mode): the program that uses the library has its own
framing and tells the parser what it has seen."""
from fam import CRLF, HOOKS, b, lst, scen, step

NAMES = ["Host", "Content-Length", "Transfer-Encoding", "Content-Type", "Authorization", "Content-Encoding", "Expect", "Upgrade", "X-A", "X-B", "", "Cookie"]


def hdr(op, name, value):
    name, value = b(name), b(value)
    return {"op": op, "d": list(name + value), "n": len(name)}


def value(f, name):
    odd = f.chance(0.15)
    if odd:
        return f.soup(f.r.randint(0, 8))
    return {"Host": lambda: f.host() + (b":" + f.port() if f.chance(0.3) else b""), "Content-Length": lambda: f.clval(f.r.randint(0, 20)),
            "Transfer-Encoding": lambda: f.pick("chunked", "Chunked", "gzip, chunked", "identity", ""), "Content-Type": lambda: f.pick("text/html", "text/html; charset=x", "TEXT/Plain,", " a/b", ""),
            "Authorization": f.auth, "Content-Encoding": lambda: f.pick("gzip", "deflate", "none", "gzip, deflate", "br"), "Expect": lambda: f.pick("100-continue", "x"),
            "Upgrade": lambda: f.pick("h2c", "websocket")}.get(name, lambda: f.text())()


def headers(f, op, names=NAMES):
    out = []
    for _ in range(f.r.choice([0, 1, 2, 2, 3, 4])):
        n = f.r.choice(names)
        out.append(hdr(op, f.case(b(n)) if f.chance(0.3) else n, value(f, n)))
    return out


def pieces(f, op):
    return [step(op, f.data(f.r.choice([0, 1, 2, 5, 9]))) for _ in range(f.r.choice([0, 0, 1, 2, 3]))]


def bodied(f, enc=None):
    """(headers, pieces, plain) of a compressed body"""
    plain, enc, z = f.compressed()
    return [hdr("?", "Content-Encoding", f.CE[enc])], [x for x in f.cut(z, f.r.choice(["one", "few", "many"])) if x], plain


def request(f, odd, body=None, simple=False):
    st = [step("qs"), step("ql", (f.reqline(odd, eol=b"") if not simple else f.pick("GET /a?b=c HTTP/1.1", "POST / HTTP/1.1", "PUT /x/../y HTTP/1.0", "HEAD http://h:81/ HTTP/1.1")))]
    if f.chance(0.1):
        st.insert(f.r.randint(0, 2), step("qu", f.uri()))
    st.append(step("qL"))
    hs = headers(f, "qh") if not simple else [hdr("qh", "Host", "a")]
    if body:
        hs = [h for h in hs if bytes(h["d"][:h["n"]]).lower() not in (b"content-encoding", b"content-type")]
        hs = hs + [dict(x, op="qh") for x in body[0]] + [hdr("qh", "Transfer-Encoding", "chunked") if f.chance(0.5) else hdr("qh", "Content-Length", "%d" % sum(map(len, body[1])))]
        f.r.shuffle(hs)
    st += hs
    if f.chance(0.4):
        st.append(step("qp", 1))
    st.append(step("qH"))
    if f.chance(0.4):
        st.append(step("qp", 2))
    st += [step("qb", x) for x in body[1]] if body else pieces(f, "qb")
    if f.chance(0.15):
        st.append(step("qe"))
    if f.chance(0.2):
        st += [step("qp", 3)] + headers(f, "qh") + [step("qH")]
    return st + [step("qc")]


def response(f, odd, body=None, simple=False):
    st = [step("ws"), step("wl", f.statusline(odd, eol=b"") if not simple else f.pick("HTTP/1.1 200 OK", "HTTP/1.0 404 Not Found", "HTTP/1.1 204 None")), step("wL")]
    hs = headers(f, "wh")
    if body:
        hs = [h for h in hs if bytes(h["d"][:h["n"]]).lower() != b"content-encoding"] + [dict(x, op="wh") for x in body[0]]
    st += hs
    if f.chance(0.4):
        st.append(step("wp", 1))
    st.append(step("wH"))
    if f.chance(0.4):
        st.append(step("wp", 2))
    st += [step("wb", x) for x in body[1]] if body else pieces(f, "wb")
    if f.chance(0.15):
        st.append(step("we"))
    return st + [step("wc")]


def stages(f):
    n = f.r.choice([1, 1, 2, 2, 3, 4])
    cfg = f.cfg(0.3)
    cfg.pop("field_limit", None)
    if f.chance(0.15):
        cfg["max_tx"] = f.r.choice([1, 1, 2, 3])
    odd = f.r.choice([0, 0.1, 0.3])
    plain = []
    rq, rs = [], []
    comp = f.chance(0.15)
    if comp:
        cfg = {k: v for k, v in cfg.items() if k in ("personality", "two", "txhook", "log_level")}
        cfg["req_decomp"] = True
        cfg["lzma_layers"] = 1
    calm = comp or f.chance(0.4)
    for i in range(n):
        z = bodied(f) if comp and f.chance(0.5) else None
        y = bodied(f) if comp and f.chance(0.5) else None
        if z:
            plain.append({"side": "r", "i": i, "d": lst(z[2]), "done": True})
        if y:
            plain.append({"side": "s", "i": i, "d": lst(y[2]), "done": True})
        rq.append(request(f, 0 if calm else odd, z, simple=comp))
        rs.append(response(f, 0 if calm else odd, y, simple=comp))
        if not comp and f.chance(0.08):
            rq[-1] = [step("c", x) for x in f.cut(f.wf_request()[0], "few")]
        if not comp and f.chance(0.08):
            rs[-1] = [step("s", x) for x in f.cut(f.wf_response(f.r.choice(["cl", "chunked"]))[0], "few")]
    # which side goes on
    mode = f.r.choice(["turn", "pipe", "free", "early"]) if not comp else f.r.choice(["turn", "pipe"])
    st = []
    if mode == "turn":
        for x, y in zip(rq, rs):
            st += x + y
    else:
        a = [(i, x) for i, m in enumerate(rq) for x in m]
        c = [(i, x) for i, m in enumerate(rs) for x in m]
        while a or c:
            may = bool(c) and (not a or mode == "free" or a[0][0] > c[0][0] or (mode == "early" and a[0][0] == c[0][0] and a[0][1]["op"] not in ("qs", "ql", "qu", "qL", "c")))
            if may and (not a or f.chance(0.5)):
                st.append(c.pop(0)[1])
            else:
                st.append(a.pop(0)[1])
    verdicts = []
    if not calm:
        # the headers may come to be concluded twice, which sets up decompression twice
        st = [x for x in st if not (x["op"] in ("qh", "wh") and bytes(x["d"][:x["n"]]).lower() == b"content-encoding")]
        for _ in range(f.r.choice([0, 0, 1, 2])):     # something is left out, said twice or too early
            i = f.r.randrange(len(st))
            k = f.r.random()
            if k < 0.15:                              # anything at any point
                st.insert(i, step(f.r.choice("qs qL qH qe qc ws wL wH we wc".split())))
            elif k < 0.4:
                del st[i]
            elif k < 0.7:
                st.insert(i, st[i])
            elif i + 1 < len(st):
                st[i], st[i + 1] = st[i + 1], st[i]
            if not st:
                break
        if f.chance(0.3):
            verdicts = [{"h": f.r.choice(HOOKS), "w": f.r.choice([1, 1, 2]), "n": f.r.choice([1, 1, 2, 0]), "ret": f.r.choice(["STOP", "ERROR", "DECLINED"])}]
            cfg["two"] = f.chance(0.5)
        if f.chance(0.1):
            st.insert(f.r.randint(0, len(st)), step("rm", f.r.randint(0, 2)))
    return scen(st + f.end(0.6), cfg, verdicts, meta={"plain": plain} if plain else {}, snap=3)
