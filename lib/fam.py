"""Families of scenarios, one per concern of the specification."""
import gzip as _gzip
import lzma as _lzma
import zlib as _zlib

from gen import Gen, HOOKS, METHODS, b, CRLF


def lst(d):
    return list(b(d))


def step(op, x=None):
    if x is None:
        return {"op": op}
    if isinstance(x, int):
        return {"op": op, "n": x}
    return {"op": op, "d": lst(x)}


def scen(steps, cfg=None, verdicts=(), meta=None, snap=3, open_=True):
    s = [step("open")] if open_ else []
    for x in steps:
        s.append(x if isinstance(x, dict) else step(*x))
    return {"cfg": dict({"snap": snap}, **(cfg or {})), "verdicts": list(verdicts), "steps": s, "meta": meta or {}}


class Fam(Gen):
    # -- well formed messages -------------------------------------------------
    def wf_headers(self, n=None, extra=()):
        n = self.r.randint(0, 3) if n is None else n
        hs = []
        for _ in range(n):
            nm = self.pick("X-A", "X-B", "Accept", "Cookie", "User-Agent", "X-C", "X-D") if self.chance(0.85) else b"X-" + self.token(1, 30)
            v = self.pick("1", "abc", "a b c", "", "x=y; z", "text/html, */*") if self.chance(0.85) else b"v" + bytes(self.r.choice(b"abcXYZ019 ,;=/") for _ in range(self.r.choice([5, 20, 60]))) + b"v"
            h = nm + b":" + self.pick(" ", "", "  ") + v
            if self.chance(0.1):
                h += CRLF + self.pick(" ", "\t") + self.pick("more", "x y")
            hs.append(h + CRLF)
        for e in extra:
            hs.insert(self.r.randint(0, len(hs)), e)
        return b"".join(hs)

    def wf_request(self, kind=None, uri=None, trailer=None, proto="HTTP/1.1", body=None, host=True, extra=()):
        """a request nothing is wrong with; returns (bytes, kind, body)"""
        kind = kind or self.r.choice(["none", "none", "cl", "cl0", "chunked", "head"])
        ex = list(extra)
        if host:
            ex.append(b"Host: example.com\r\n")
        m = b"GET"
        u = b(uri) if uri is not None else self.pick("/", "/a", "/a/b?c=d", "/index.html?x=1&y=2")
        bd, wire = b"", b""
        if kind in ("cl", "cl0"):
            m = self.pick("POST", "PUT")
            bd = b"" if kind == "cl0" else (self.data(self.psize(30)) if body is None else body)
            ex.append(b"Content-Length: %d\r\n" % len(bd))
            wire = bd
        elif kind == "chunked":
            m = self.pick("POST", "PUT")
            ex.append(b"Transfer-Encoding: chunked\r\n")
            parts = [self.data(self.psize()) for _ in range(self.r.randint(0, 3))] if body is None else body
            bd = b"".join(parts)
            wire = self.chunked(parts, odd=0, trailer=(self.wf_headers(self.r.randint(1, 2)) if self.chance(0.4) else b"") if trailer is None else trailer)
        elif kind == "head":
            m = b"HEAD"
        return m + b" " + u + b" " + b(proto) + CRLF + self.wf_headers(extra=ex) + CRLF + wire, kind, bd

    def wf_response(self, kind=None, status=None, trailer=None, body=None, extra=(), head=False):
        kind = kind or self.r.choice(["none", "cl", "cl", "cl0", "chunked", "close"])
        st = status or ("204" if kind == "none" and self.chance(0.5) else "304" if kind == "none" else self.final())
        ex = list(extra)
        bd, wire = b"", b""
        if kind in ("cl", "cl0"):
            bd = b"" if kind == "cl0" else (self.data(self.psize(30)) if body is None else body)
            ex.append(b"Content-Length: %d\r\n" % len(bd))
            wire = bd
        elif kind == "chunked":
            ex.append(b"Transfer-Encoding: chunked\r\n")
            parts = [self.data(self.psize()) for _ in range(self.r.randint(0, 3))] if body is None else body
            bd = b"".join(parts)
            wire = self.chunked(parts, odd=0, trailer=(self.wf_headers(self.r.randint(1, 2)) if self.chance(0.4) else b"") if trailer is None else trailer)
        elif kind == "close":
            bd = self.data(self.r.randint(1, 40)) if body is None else body
            wire = bd
        if head:
            wire, bd = b"", b""
        return b"HTTP/1.1 " + b(st) + b" " + self.pick("OK", "Some Text") + CRLF + self.wf_headers(extra=ex) + CRLF + wire, kind, bd

    def final(self):
        """a status whose response has nothing special about its framing"""
        while True:
            st = self.status("200", "404", "206", "500", "301")
            if st not in (b"204", b"304") and not st.startswith(b"1") and 200 <= int(st) <= 999:
                return st

    def safe_data(self, n):
        """body bytes of a message that runs until close, or that nothing can be mistaken in"""
        return bytes(self.r.choice(b"abcXYZ 01\r\n") for _ in range(n))

    def interim(self):
        return self.pick("HTTP/1.1 100 Continue\r\n\r\n", "HTTP/1.1 100 Continue\r\nX-I: 1\r\n\r\n", "HTTP/1.0 100 C\r\nA: b\r\nC: d\r\n\r\n")

    def conversation(self, n=None, wf=0.8, close_last=True):
        """request and response messages of a connection: ([req], [resp]), in step; a response may have an interim one before it"""
        n = n or self.r.randint(1, 4)
        rq, rs = [], []
        for i in range(n):
            last = i == n - 1
            if self.chance(wf):
                r, k, _ = self.wf_request(uri="/r%d" % i)
            else:
                r, k = self.request(0.2), None
            kinds = ["none", "cl", "cl", "cl0", "chunked"] + (["close"] if last and close_last else [])
            if self.chance(wf):
                s, _, _ = self.wf_response(self.r.choice(kinds), head=k == "head")
            else:
                s = self.response(0.2)
            if self.chance(0.15):
                s = self.interim() + s
            rq.append(r)
            rs.append(s)
        return rq, rs

    def weave(self, rq, rs, cut=None, mode=None):
        """steps delivering the messages: in step, requests first, or interleaved at random"""
        mode = mode or self.r.choice(["step", "step", "first", "rand", "join"])
        if mode == "step":
            st = []
            for i in range(max(len(rq), len(rs))):
                if i < len(rq):
                    st += [("c", x) for x in self.cut(rq[i], cut)]
                if i < len(rs):
                    st += [("s", x) for x in self.cut(rs[i], cut)]
            return [step(*x) for x in st]
        if mode == "join":
            return self.steps_from(self.cut(b"".join(rq), cut), self.cut(b"".join(rs), cut), "seq")
        cs = [y for x in rq for y in self.cut(x, cut)]
        ss = [y for x in rs for y in self.cut(x, cut)]
        return self.steps_from(cs, ss, "seq" if mode == "first" else "rand")

    def end(self, p=0.7):
        k = self.r.random()
        if k > p:
            return []
        return [step(self.r.choice(["close", "close", "close", "rclose"]))] + ([step("close")] if self.chance(0.2) else [])

    # -- families -------------------------------------------------------------
    def life(self):
        """callbacks of whole conversations"""
        rq, rs = self.conversation()
        k = self.r.randint(0, 13)
        if k == 0:
            rq[-1] = self.pick("GET /x\r\n", "GET /y\n")
            rs[-1] = self.safe_data(self.r.randint(1, 20))
        elif k == 1:
            i = self.r.randrange(len(rq))
            rq[i] = b"CONNECT a.com:443 HTTP/1.1\r\nHost: a.com\r\n\r\n"
            rs[i] = b"HTTP/1.1 " + self.status("200", "407", "403", "204") + b" X\r\nContent-Length: 0\r\n\r\n"
        elif k == 2:
            i = self.r.randrange(len(rs))
            rs[i] = b"HTTP/1.1 101 Switch\r\n" + self.pick("Upgrade: h2c\r\n", "Content-Length: 0\r\n", "Upgrade: websocket\r\n") + CRLF
        elif k == 3:
            rs = rs + [self.wf_response("cl")[0]]
        elif k == 4:
            rq = rq[:-1]
        elif k == 5:
            rs = rs[:-1]
        elif k == 6:
            rs[0] = self.interim() + self.interim() + rs[0]
        elif k == 7:
            rq[-1] = rq[-1][:self.r.randint(1, len(rq[-1]))]
        elif k == 8:
            rs[-1] = rs[-1][:self.r.randint(1, len(rs[-1]))]
        elif k == 9:
            rq[0] = b"POST / HTTP/1.1\r\nHost: a\r\nExpect: 100-continue\r\nContent-Length: 5\r\n\r\n" + (b"hello" if self.chance(0.5) else b"")
            rs[0] = (self.interim() if self.chance(0.5) else b"") + b"HTTP/1.1 " + self.status("200", "417", "401", "500") + b" X\r\nContent-Length: 2\r\n\r\nab"
        elif k == 10:
            rq.insert(self.r.randint(0, len(rq)), self.pick("\r\n", "\r\n\r\n", "\n"))
        cfg = {}
        for key in ("auto_destroy", "flush", "two", "txhook"):
            if self.chance(0.25):
                cfg[key] = True
        st = self.weave(rq, rs)
        if self.chance(0.15):
            st.insert(self.r.randint(1, len(st)) if len(st) > 1 else 0, step(self.r.choice(["rclose", "close"])))
        st += self.end(0.85)
        if self.chance(0.1):
            st += self.weave([self.wf_request()[0]], [self.wf_response()[0]])
        return scen(st, cfg, snap=1)

    def pairing(self):
        n = self.r.randint(2, 6)
        rq = [self.wf_request(self.r.choice(["none", "none", "cl", "chunked"]), uri="/r%d" % i)[0] for i in range(n)]
        rs = [self.wf_response(self.r.choice(["cl", "cl0", "none", "chunked"]), status=None, extra=(b"X-N: r%d\r\n" % i,))[0] for i in range(n)]
        k = self.r.randint(0, 9)
        if k == 0:
            i = self.r.randrange(n)
            rs[i] = self.interim() + rs[i]
        elif k == 1:   # more responses than requests
            rs += [self.wf_response("cl", extra=(b"X-N: extra%d\r\n" % i,))[0] for i in range(self.r.randint(1, 2))]
        elif k == 2:
            rq = rq[:self.r.randint(0, n - 1)]
        elif k == 3:
            rs = rs[:self.r.randint(0, n - 1)]
        elif k == 4:
            i = self.r.randrange(n)
            rq[i] = b"HEAD /r%d HTTP/1.1\r\nHost: a\r\n\r\n" % i
            rs[i] = b"HTTP/1.1 200 OK\r\nContent-Length: 10\r\nX-N: r%d\r\n\r\n" % i
        elif k == 5:
            i = self.r.randrange(n)
            rq[i] = b"CONNECT r%d:80 HTTP/1.1\r\nHost: a\r\n\r\n" % i
            rs[i] = b"HTTP/1.1 %s X\r\nContent-Length: 0\r\nX-N: r%d\r\n\r\n" % (self.status("407", "403", "200"), i)
        cfg = {"auto_destroy": True} if self.chance(0.2) else {}
        if self.chance(0.35):   # split the two directions in blocks
            st = []
            rq2, rs2 = list(rq), list(rs)
            while rq2 or rs2:
                for _ in range(self.r.randint(0, 3)):
                    if rq2:
                        st += [step("c", x) for x in self.cut(rq2.pop(0), self.r.choice(["one", "few"]))]
                for _ in range(self.r.randint(0, 3)):
                    if rs2:
                        st += [step("s", x) for x in self.cut(rs2.pop(0), self.r.choice(["one", "few"]))]
                if self.chance(0.2):
                    st.append(step(self.r.choice(["cr", "sr"])))
        else:
            st = self.weave(rq, rs, self.r.choice(["one", "one", "few", "many"]))
        if self.chance(0.1):
            st.insert(self.r.randint(0, len(st)), step("rm", self.r.randint(0, n)))
        return scen(st + self.end(0.4), cfg, snap=3)

    # -- segmentation groups (C03) ---------------------------------------------
    def cut_group(self, gid, ncuts):
        """the same messages, each in one piece and cut in many ways"""
        n = self.r.randint(1, 2)
        rq, rs = [], []
        odd = self.r.choice([0, 0, 0.1, 0.3])
        for i in range(n):
            kind = self.r.choice(["none", "cl", "chunked", "chunked", "comp"])
            rkind = self.r.choice(["cl", "chunked", "chunked", "close" if i == n - 1 else "cl", "comp", "interim"])
            rq.append(self.cut_request(kind, odd))
            rs.append(self.cut_response(rkind, odd))
        if self.chance(0.2):    # a CONNECT, refused or not, and what comes through it
            rq.insert(0, b"CONNECT " + self.pick("a.com:443", "[::1]:80") + b" HTTP/1.1\r\n" + self.cut_headers(odd, [b"Host: a.com\r\n"]) + CRLF)
            through = self.chance(0.3)
            rs.insert(0, b"HTTP/1.1 " + (b"%d" % self.r.randint(200, 299) if through else self.final()) + b" X\r\n" + self.cut_headers(odd, [b"Content-Length: 0\r\n"], False) + CRLF)
            if through:
                rq[1] = self.pick("\x16\x03\x01\x02\x00\x01\n", "SSH-2.0-x\r\n", "abc def\nghi", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n")
                rs[1] = self.pick("\x16\x03\x03abc\n", "SSH-2.0-y\r\n", "xyz")
                rq, rs = rq[:2], rs[:2]
        elif self.chance(0.08):    # a switch to another protocol
            rs[-1] = b"HTTP/1.1 101 Switching\r\n" + self.cut_headers(odd, [b"Upgrade: " + self.pick("websocket", "h2c") + CRLF], False) + CRLF + self.data()
        n = len(rq)
        cfg = {"snap": 3}
        if self.chance(0.5):
            cfg["req_decomp"] = True
        if self.chance(0.3):
            cfg.update(self.dcfg())
        if self.chance(0.3):
            cfg["personality"] = self.r.choice(["IDS", "APACHE_2", "IIS_7_5", "GENERIC"])
        out = []

        def add(pieces):
            st = [step("open")] + [step(op, d) for op, d in pieces] + [step("close")]
            out.append({"cfg": cfg, "verdicts": [], "steps": st, "meta": {"group": gid}})
        msgs = []
        for i in range(n):
            msgs += [("c", rq[i]), ("s", rs[i])]
        add(msgs)
        # every single cut of one message, then random cuts of all
        total = [(m, k) for m in range(len(msgs)) for k in range(1, len(msgs[m][1]))]
        self.r.shuffle(total)
        for m, k in total[:ncuts]:
            op, d = msgs[m]
            add(msgs[:m] + [(op, d[:k]), (op, d[k:])] + msgs[m + 1:])
        for mode in ["bytes", "few", "few", "many", "many"] + ["few"] * (ncuts // 10):
            ps = []
            for op, d in msgs:
                ps += [(op, x) for x in self.cut(d, mode)]
            add(ps)
        if n > 1 and not any(b"CONNECT" in x for x in rq):   # pieces that span messages: all requests first
            base = [("c", x) for x in rq] + [("s", x) for x in rs]
            g2 = []
            for pcs in [base] + [[("c", x) for x in self.cut(b"".join(rq), "few")] + [("s", x) for x in self.cut(b"".join(rs), "few")] for _ in range(4 + ncuts // 10)]:
                st = [step("open")] + [step(op, d) for op, d in pcs] + [step("close")]
                g2.append({"cfg": cfg, "verdicts": [], "steps": st, "meta": {"group": gid + "p"}})
            out += g2
        return out

    def cut_headers(self, odd, extra, lf=True):
        hs = []
        for _ in range(self.r.randint(0, 3)):
            nm = self.pick("X-A", "X-B", "Accept", "x-a") if not self.chance(odd) else self.pick("", "X ", "X@Y", "X Y", "X\x00Y", "\xff")
            v = self.pick("1", "abc", "a b", "") if not self.chance(odd) else self.pick(" pad ", "a\x00b", "\xff", "a:b", "\t")
            h = nm + (b": " if not self.chance(odd) else self.pick(":", " :", ":\t")) + v
            if self.chance(odd):
                h = self.pick("nocolon", "no colon here")
            if self.chance(0.2):
                for _ in range(self.r.randint(1, 2)):
                    h += CRLF + self.pick(" ", "\t", "  ") + self.pick("more", "x y", "a")
            hs.append(h + (CRLF if not (lf and self.chance(odd)) else b"\n"))
        for e in extra:
            hs.insert(self.r.randint(0, len(hs)), e)
        return b"".join(hs)

    def compressed(self, n=None):
        plain = bytes(self.r.choice(b"abcd \n") for _ in range(self.r.randint(0, 60) if n is None else n))
        enc = self.r.choice(["gzip", "gzip", "deflate", "zlib", "lzma", "gzip2"])
        return plain, enc, self.encode(plain, enc)

    def encode(self, plain, enc):
        if enc == "gzip":
            return self.gz(plain)
        if enc == "gzip2":
            return self.gz(self.gz(plain))
        if enc == "deflate":
            c = _zlib.compressobj(9, _zlib.DEFLATED, -15)
            return c.compress(plain) + c.flush()
        if enc == "zlib":
            return _zlib.compress(plain)
        return lzma_known(plain)

    def gz(self, plain, header=None):
        """gzip with all optional header fields"""
        fl, opt = 0, b""
        k = self.r.randint(0, 3)
        c = _zlib.compressobj(self.r.choice([0, 1, 9]), _zlib.DEFLATED, -15)
        body = c.compress(plain) + c.flush()
        if k > 0:
            if self.chance(0.5):
                fl |= 4
                x = bytes(self.r.randrange(256) for _ in range(self.r.randint(0, 6)))
                opt += len(x).to_bytes(2, "little") + x
            if self.chance(0.5):
                fl |= 8
                opt += self.pick("name", "", "f.txt") + b"\0"
            if self.chance(0.5):
                fl |= 16
                opt += self.pick("comment", "") + b"\0"
            if self.chance(0.3):
                fl |= 2
                opt += b"\x12\x34"
        tail = _zlib.crc32(plain).to_bytes(4, "little") + (len(plain) & 0xffffffff).to_bytes(4, "little")
        return b"\x1f\x8b\x08" + bytes([fl]) + b"\0\0\0\0\0\3" + opt + body + tail

    CE = {"gzip": b"gzip", "gzip2": b"gzip, gzip", "deflate": b"deflate", "zlib": b"deflate", "lzma": b"lzma"}

    def split(self, d, k=None):
        k = self.r.randint(1, 3) if k is None else k
        return self.cut(d, "few") if k > 1 else ([d] if d else [])

    def cut_request(self, kind, odd):
        ex = [b"Host: example.com\r\n"] if self.chance(0.8) else []
        m, wire = self.pick("GET", "OPTIONS"), b""
        if kind == "cl":
            wire = self.data(self.r.randint(0, 20))
            m = b"POST"
            ex.append(b"Content-Length: %d\r\n" % len(wire))
        elif kind in ("chunked", "comp"):
            m = b"POST"
            ex.append(b"Transfer-Encoding: chunked\r\n")
            parts = None
            if kind == "comp":
                plain, enc, z = self.compressed()
                ex.append(b"Content-Encoding: " + self.CE[enc] + CRLF)
                parts = self.split(z)
            wire = self.cut_chunked(odd, parts)
        return m + b" " + self.uri(odd) + b" HTTP/1.1" + (CRLF if not self.chance(odd) else b"\n") + self.cut_headers(odd, ex) + (CRLF if not self.chance(odd) else b"\n") + wire

    def cut_chunked(self, odd, parts=None, lf=True):
        parts = [self.data(self.psize(17)) for _ in range(self.r.randint(0, 3))] if parts is None else parts
        out = b""
        for x in parts:
            ln = b"%x" % len(x)
            if self.chance(0.3):
                ln = self.r.choice([b"0%x" % len(x), b"%x;a=b" % len(x), b"%x " % len(x), b"%X" % len(x), b"%x ;x" % len(x), b"00%x" % len(x)])
            out += ln + CRLF + x + CRLF
        out += self.pick("0", "00", "0;x") + CRLF
        return out + (self.cut_headers(odd, [b"X-T: 1\r\n"], lf) if self.chance(0.4) else b"") + CRLF

    def cut_response(self, kind, odd):
        pre = b""
        if kind == "interim":
            pre = self.pick("HTTP/1.1 100 Continue\r\n\r\n", "HTTP/1.1 100 Continue\r\nX-I: 1\r\n\r\n")
            kind = self.r.choice(["cl", "chunked"])
        ex, wire = [], b""
        if kind == "cl":
            wire = self.data(self.r.randint(0, 20))
            ex.append(b"Content-Length: %d\r\n" % len(wire))
        elif kind in ("chunked", "comp"):
            ex.append(b"Transfer-Encoding: chunked\r\n")
            parts = None
            if kind == "comp":
                plain, enc, z = self.compressed()
                ex.append(b"Content-Encoding: " + self.CE[enc] + CRLF)
                parts = self.split(z)
            wire = self.cut_chunked(odd, parts, False)
        elif kind == "close":
            wire = self.data(self.r.randint(0, 20))
        st = self.final() + self.pick(" OK", " Not Found", "", " X", " y") if not self.chance(odd) else self.pick("099 X", "abc", "1000 x", "200  two  spaces")
        return pre + b"HTTP/1.1 " + st + CRLF + self.cut_headers(odd, ex, False) + CRLF + wire

    # -- bodies (C04) ---------------------------------------------------------
    def bodies(self):
        big = self.chance(0.05)
        n = self.r.randint(1, 3)
        rq, rs = [], []

        def body(lim=30):
            return self.data(self.r.choice([1, 2, 3, self.psize(lim), self.psize(lim)]) if not big else self.r.choice([4096, 8192, 8193, 9000]))
        for i in range(n):
            k = self.r.choice(["cl", "cl", "chunked", "chunked", "none", "cl0"])
            parts = [body(20) for _ in range(self.r.randint(0, 4))] if k == "chunked" else body()
            tr = None
            rq.append(self.wf_request(k, uri="/r%d" % i, body=parts, trailer=tr)[0])
            k = self.r.choice(["cl", "cl", "chunked", "chunked", "cl0", "none"] + (["close", "close"] if i == n - 1 else []))
            parts = [body(20) for _ in range(self.r.randint(0, 4))] if k == "chunked" else (self.safe_data(self.r.randint(1, 40)) if k == "close" else body())
            r = self.wf_response(k, body=parts)[0]
            if k == "chunked" and self.chance(0.3):
                r = r.replace(b"\r\n0\r\n", b"\r\n" + self.pick("0;ext", "000", " 0") + b"\r\n", 1)
            if self.chance(0.1):
                r = self.interim() + r
            rs.append(r)
        if self.chance(0.15):
            rq[-1] = rq[-1][:-self.r.randint(1, 5)]
        if self.chance(0.15):
            rs[-1] = rs[-1][:-self.r.randint(1, 5)]
        cfg = {"txhook": True} if self.chance(0.25) else {}
        if self.chance(0.1):
            cfg["two"] = True
        mode = self.r.choice(["one", "few", "few", "many"]) if big else self.r.choice(["one", "few", "few", "many", "bytes"])
        return scen(self.weave(rq, rs, mode, self.r.choice(["step", "join", "first", "rand"])) + self.end(0.8), cfg, snap=1)

    def odd_chunked(self):
        """chunked bodies with unusual or unusable framing"""
        w = self.bad_chunked() if self.chance(0.5) else self.chunked(odd=0.6)
        if self.chance(0.5):
            q = b"POST / HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\n" + w
            cs, ss = self.cut(q), self.cut(self.wf_response("cl")[0])
        else:
            cs, ss = [self.wf_request("none")[0]], self.cut(b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n" + w)
        return scen([step("c", x) for x in cs] + [step("s", x) for x in ss] + self.end(0.6), snap=1)

    # -- ends (C05) ---------------------------------------------------------
    def sticky(self):
        """something ends a direction; data, gaps and more keep coming"""
        rq, rs = self.conversation(self.r.randint(1, 3))
        cfg, vd = {}, []
        k = self.r.randint(0, 7)
        if k <= 2:
            vd.append({"h": self.r.choice(HOOKS), "w": 1, "n": self.r.randint(0, 2), "ret": self.r.choice(["STOP", "ERROR"])})
        elif k == 3:
            i = self.r.randrange(len(rq))
            rq[i] = b"CONNECT a.com:443 HTTP/1.1\r\nHost: a.com\r\n\r\n" + self.pick("\x16\x03\x01binary\n", "GET / HTTP/1.1\r\n\r\n", "xx\nyy")
            rs[i] = b"HTTP/1.1 200 OK\r\n\r\n"
        elif k == 4:
            i = self.r.randrange(len(rs))
            rs[i] = b"HTTP/1.1 101 Switch\r\nUpgrade: " + self.pick("h2c", "x") + b"\r\n\r\n" + self.data(5)
        elif k == 5:
            i = self.r.randrange(len(rq))
            rq[i] = self.pick("POST / HTTP/1.1\r\nContent-Length: abc\r\n\r\n", "POST / HTTP/1.1\r\nTransfer-Encoding: foo\r\n\r\n", "POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n", "CONNECT\r\n\r\n")
        elif k == 6:
            i = self.r.randrange(len(rs))
            rs[i] = self.pick("HTTP/1.1 200 OK\r\nContent-Length: abc\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Type: multipart/byteranges\r\n\r\n")
        else:
            cfg = self.r.choice([{"field_limit": 40}, {"max_tx": 1}])
        if self.chance(0.3):
            cfg["txhook"] = True
        st = self.weave(rq, rs, self.r.choice(["one", "few", "many"]))
        more = self.weave([self.request(0.2)] * 2, [self.response(0.2)] * 2, self.r.choice(["one", "few"]))
        for _ in range(self.r.randint(0, 2)):
            more.insert(self.r.randint(0, len(more)), step(self.r.choice(["cg", "sg"]), self.r.randint(1, 20)))
        st += more
        if self.chance(0.3):
            st.insert(self.r.randint(0, len(st)), step(self.r.choice(["cg", "sg"]), self.r.randint(1, 9)))
        if self.chance(0.3):
            st.append(step(self.r.choice(["c", "s"]), b"x"))
        return scen(st + self.end(0.3), cfg, vd, snap=3)

    # -- verdicts (C06) --------------------------------------------------------
    def verdict(self, hook=None, ret=None, n=None):
        rq, rs = self.conversation(self.r.randint(1, 2))
        if self.chance(0.5):
            rq[0] = self.wf_request("chunked", trailer=b"T: 1\r\n")[0]
            rs[0] = self.wf_response("chunked", trailer=b"T: 1\r\n", body=[b"abc", b"de"])[0]
        if self.chance(0.1):
            rs[0] = self.interim() + rs[0]
        hook = hook or self.r.choice(HOOKS)
        ret = ret or self.r.choice(["STOP", "ERROR", "STOP", "ERROR", "DECLINED"])
        n = self.r.choice([1, 1, 2, 0, 3]) if n is None else n
        cfg = {}
        if self.chance(0.5):
            cfg["two"] = True
        if self.chance(0.3) or hook.startswith("tx_"):
            cfg["txhook"] = True
        if self.chance(0.2):
            cfg["flush"] = True
        if self.chance(0.2):
            cfg["auto_destroy"] = True
        w = self.r.choice([1, 1, 2]) if cfg.get("two") and not hook.startswith("tx_") else 1
        vd = [{"h": hook, "w": w, "n": n, "ret": ret}]
        if self.chance(0.2):
            vd.append({"h": self.r.choice(HOOKS), "w": 1, "n": self.r.choice([0, 1, 2]), "ret": self.r.choice(["STOP", "ERROR", "DECLINED"])})
        if self.chance(0.15):
            rq.append(b"GET /x\r\n")
        st = self.weave(rq, rs, self.r.choice(["one", "few", "many"]))
        if self.chance(0.2):
            st.insert(self.r.randint(0, len(st)), step(self.r.choice(["cg", "sg"]), self.r.randint(1, 9)))
        return scen(st + self.end(0.6), cfg, vd, snap=1)

    # -- CONNECT and upgrades (C07) ----------------------------------------------
    def connect(self):
        pre = self.r.randint(0, 1)
        rq = [self.wf_request()[0] for _ in range(pre)]
        rs = [self.wf_response(self.r.choice(["cl", "none"]))[0] for _ in range(pre)]
        rs = [b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n" for _ in rq]
        after = self.r.choice([b"", b"GET /next HTTP/1.1\r\nHost: a\r\n\r\n", b"\x16\x03\x01\x00\n", b"\x00", b"xyz", b"GE", b" GET / HTTP/1.1\r\n\r\n", b"\r\nGET / HTTP/1.1\r\n\r\n", b"GETX / HTTP/1.1\r\n\r\n",
                               b"POST /n HTTP/1.1\r\nContent-Length: 3\r\n\r\nabc", b"get / HTTP/1.1\r\n\r\n", b"HEAD", b"\n", b"GET\x00", b"PUT\n"])
        status = self.status("200", "201", "299", "300", "199", "407", "403", "500", "204", "abc", "100")
        resp = b"HTTP/1.1 " + status + b" X\r\n" + self.pick("", "Content-Length: 0\r\n", "Content-Length: 3\r\n", "Transfer-Encoding: chunked\r\n", "A: b\r\n") + CRLF
        if b"Length: 3" in resp and not status.startswith(b"2"):
            resp += b"abc"
        if b"chunked" in resp and not status.startswith(b"2"):
            resp += b"3\r\nabc\r\n0\r\n\r\n"
        rafter = self.r.choice([b"", b"", b"tunnelled data", b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nhi", b"\x16\x03"])
        con = b"CONNECT " + self.pick("a.com:443", "a.com", "[::1]:443", "a.com:99999", "a b", ":80", "/x") + b" HTTP/1." + self.pick("1", "0") + CRLF + self.wf_headers() + CRLF
        k = self.r.randint(0, 3)
        st = self.weave(rq, rs, "one", "step")
        if k == 0:
            st += [step("c", con + after)]
        elif k == 1:
            st += [step("c", con)] + [step("c", x) for x in self.cut(after)]
        else:
            st += [step("c", x) for x in self.cut(con + after)]
        more = [step("s", x) for x in self.cut(resp + rafter)]
        out = st
        for m in more:
            out.append(m)
            if self.chance(0.4):
                out.append(step("cr"))
            if self.chance(0.15):
                out.append(step("sr"))
        out.append(step("cr"))
        if self.chance(0.5):
            out += [step("c", x) for x in self.cut(self.r.choice([b"GET /z HTTP/1.1\r\nHost: z\r\n\r\n", b"more tunnel\n", b"x"]))]
            if self.chance(0.5):
                out.append(step("cr"))
        if self.chance(0.5):
            out += [step("s", x) for x in self.cut(self.r.choice([b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nhi", b"more tunnel\n", b"x"]))]
            out.append(step("sr"))
        if self.chance(0.15):
            out.insert(self.r.randint(1, len(out)), step(self.r.choice(["cg", "sg"]), 5))
        return scen(out + self.end(0.4), {"auto_destroy": True} if self.chance(0.1) else {}, snap=1)

    def upgrade(self):
        hd = b"".join(self.r.sample([b"Upgrade: h2c\r\n", b"Upgrade: websocket\r\n", b"Content-Length: 0\r\n", b"Content-Length: 2\r\n", b"Transfer-Encoding: chunked\r\n", b"Connection: Upgrade\r\n", b"Upgrade: H2C, x\r\n", b""], self.r.randint(0, 3)))
        resp = b"HTTP/1.1 101 Switching\r\n" + hd + CRLF + self.pick("", "ab", "0\r\n\r\n", "tunnel bytes", "HTTP/1.1 200 OK\r\n\r\n")
        rq = [self.wf_request()[0] for _ in range(self.r.randint(1, 3))]
        rs = [self.wf_response("cl")[0] for _ in range(self.r.randint(0, 1))] + [resp]
        st = self.weave(rq, rs, self.r.choice(["one", "few"]), self.r.choice(["step", "first", "rand"]))
        st += self.weave([self.pick("tunnel", "GET / HTTP/1.1\r\n\r\n")], [self.pick("tunnel", "HTTP/1.1 200 OK\r\n\r\n")], self.r.choice(["one", "few"]))
        return scen(st + self.end(0.4), snap=1)

    # -- limits (C09, C10) -------------------------------------------------------
    def limits(self):
        lim = self.r.choice([16, 20, 32, 50, 64, 100])
        cfg = {"field_limit": lim}

        def pad(n):
            return b"a" * max(0, n)
        d = self.r.choice([-2, -1, 0, 1, 2, 10])
        k = self.r.randint(0, 7)
        rq, rs = self.wf_request("none", uri="/", host=False)[0], b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nab"
        if k == 0:
            rq = b"GET /" + pad(lim + d - 16) + b" HTTP/1.1\r\n\r\n"
        elif k == 1:
            rq = b"GET / HTTP/1.1\r\nX: " + pad(lim + d - 5) + b"\r\n\r\n"
        elif k == 2:
            rq = b"GET / HTTP/1.1\r\n" + b"".join(b"X%d: %s\r\n" % (i, pad(self.r.randint(0, 12))) for i in range(self.r.randint(2, 8))) + CRLF
        elif k == 3:
            rq = b"POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n" + b"0" * max(0, lim + d - 3) + b"3\r\nabc\r\n0\r\n\r\n"
        elif k == 4:
            rs = b"HTTP/1.1 200 " + pad(lim + d - 15) + b"\r\n\r\nbody"
        elif k == 5:
            rs = b"HTTP/1.1 200 OK\r\nX: " + pad(lim + d - 5) + b"\r\n" + (b" fold\r\n" if self.chance(0.3) else b"") + b"\r\nbody"
        elif k == 6:
            rs = b"HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n" + b"0" * max(0, lim + d - 3) + b"3\r\nabc\r\n0\r\n\r\n"
        else:
            rq = self.request(0.2)
            rs = self.response(0.2)
        if self.chance(0.02):    # the default limit, on lines that never end
            n = 18000 + d
            c = self.r.choice([n - 3, 17000, 3])
            x = self.pick("GET /", "HTTP/1.1 200 ") + pad(n)
            op = "c" if x[0] == 71 else "s"
            return scen([step(op, x[:c]), step(op, x[c:n]), step(op, b"aaa"), step(op, b"\n")], {}, snap=1)
        mode = self.r.choice(["one", "few", "many", "bytes"])
        st = self.weave([rq], [rs], mode, "step")
        if self.chance(0.4):
            st += self.weave([self.wf_request()[0]], [self.wf_response("cl")[0]], "few")
        return scen(st + self.end(0.3), cfg, snap=2)

    def txlimit(self):
        m = self.r.choice([1, 2, 3, 4])
        cfg = {"max_tx": m}
        if self.chance(0.3):
            cfg["auto_destroy"] = True
        if self.chance(0.15):
            cfg["flush"] = True
        n = self.r.randint(m, m + 3)
        rq = [self.wf_request(self.r.choice(["none", "cl"]), uri="/r%d" % i)[0] for i in range(n)]
        rs = [self.wf_response(self.r.choice(["cl", "cl0", "chunked"]))[0] for i in range(n)]
        mode = self.r.choice(["step", "first", "rand", "resp"])
        if mode == "resp":
            st = [step("s", x) for x in rs]
        else:
            st = self.weave(rq, rs, self.r.choice(["one", "few"]), mode)
        for _ in range(self.r.randint(0, 4)):
            st.insert(self.r.randint(0, len(st)), step("rm", self.r.randint(0, n)))
        return scen(st + self.end(0.4), cfg, snap=3)

    def removal(self):
        cfg = {"auto_destroy": True} if self.chance(0.5) else {}
        if self.chance(0.3):
            cfg["max_tx"] = self.r.choice([2, 3, 512])
        if self.chance(0.2):
            cfg["flush"] = True
        rq, rs = self.conversation(self.r.randint(2, 5), wf=0.9)
        st = self.weave(rq, rs)
        for _ in range(self.r.randint(0, 3)):
            st.insert(self.r.randint(0, len(st)), step("rm", self.r.randint(0, 5)))
        return scen(st + self.end(0.6), cfg, snap=3)

    # -- framing (C11, C12) -------------------------------------------------------
    def te(self):
        return self.pick("chunked", "chunked", "Chunked", "CHUNKED", "gzip, chunked", "chunked, gzip", "identity", "chunke", "xchunkedx", "", " chunked", "chunked;q=1", "chunked, chunked", "chun ked", "chun\x00ked", "\x00chunked")

    def clv(self):
        return self.pick("3", "3", "%d" % self.r.randint(0, 30), "0", "5", "03", " 3", "3 ", "3x", "x3", "abc", "", "-3", "+3", "3,3", "3, 3", "3 3", "99999999999999999999", "18446744073709551615", "9223372036854775807", "9223372036854775808", "2147483648", "\"3\"", "0x3", "3\x00", "3;a", "[3]", "3-", "\t3\t")

    def hn(self, n):
        """spellings of a header name"""
        return self.case(n)

    # -- requests that wait for a verdict before sending their body -----------
    def expect(self):
        st = []
        owed = 0
        for i in range(self.r.randint(1, 4)):
            body = self.pick("abc", "GET /in HTTP/1.1\r\n\r\n", "a\nb", "\r\n")
            ex = self.chance(0.7)
            head = b"POST /e%d HTTP/1.1\r\nHost: a\r\n" % i + (b"Expect: " + self.pick("100-continue", "100-continue", "100-Continue", "x") + CRLF if ex else b"") \
                + (b"Content-Length: %d\r\n" % len(body) if self.chance(0.9) else b"Transfer-Encoding: chunked\r\n") + CRLF
            cutoff = self.r.choice([0, 0, 0, 1, len(body)])
            st += [step("c", x) for x in self.cut(head, self.r.choice(["one", "one", "few"]))]
            if cutoff:
                st.append(step("c", body[:cutoff]))
            owed += 1
            for _ in range(self.r.choice([0, 1, 1, 1, owed])):
                if not owed:
                    break
                rs = (self.interim() if self.chance(0.3) else b"") + b"HTTP/1.1 " + self.status("417", "400", "499", "401", "500", "399", "200") + b" X\r\nContent-Length: 1\r\n\r\ny"
                st += [step("s", x) for x in self.cut(rs, self.r.choice(["one", "one", "few"]))]
                owed -= 1
            if self.chance(0.65) and cutoff < len(body):
                st += [step("c", x) for x in self.cut(body[cutoff:], self.r.choice(["one", "few"]))]
        for _ in range(owed):
            st.append(step("s", b"HTTP/1.1 " + self.status("200", "404") + b" X\r\nContent-Length: 0\r\n\r\n"))
        return scen(st + self.end(0.4), snap=2)

    def req_framing(self):
        hs = []
        for _ in range(self.r.choice([0, 1, 1, 1, 2, 2, 3])):
            k = self.r.randint(0, 3)
            if k < 2:
                hs.append(self.hn("Content-Length") + b": " + self.clv() + CRLF)
            elif k == 2:
                hs.append(self.hn("Transfer-Encoding") + b": " + self.te() + CRLF)
            else:
                hs.append(self.hn(self.r.choice(["Content-Length", "Transfer-Encoding"])) + self.pick(" : ", ":", ":\t") + self.pick("3", "chunked") + self.pick("\r\n", "\r\n x\r\n", "\r\n 3\r\n"))
        if self.chance(0.7):
            hs.append(b"Host: a\r\n")
        for _ in range(self.r.randint(0, 2)):
            hs.append(self.header(0.1))
        self.r.shuffle(hs)
        body = self.pick("abc", "3\r\nabc\r\n0\r\n\r\n", "", "abcde", "0\r\n\r\n")
        rq = self.pick("POST", "GET", "PUT", "HEAD", "X") + b" /r HTTP/" + self.pick("1.1", "1.1", "1.1", "1.0", "0.9", "1.2") + CRLF + b"".join(hs) + CRLF + body + self.pick("", "GET /next HTTP/1.1\r\n\r\n")
        return scen([step("c", x) for x in self.cut(rq)] + ([step("s", b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n")] if self.chance(0.3) else []) + self.end(0.3), snap=2)

    def resp_framing(self):
        hs = []
        for _ in range(self.r.choice([0, 1, 1, 1, 2, 2, 3])):
            k = self.r.randint(0, 4)
            if k < 2:
                hs.append(self.hn("Content-Length") + b": " + self.clv() + CRLF)
            elif k == 2:
                hs.append(self.hn("Transfer-Encoding") + b": " + self.te() + CRLF)
            elif k == 3:
                hs.append(self.hn("Content-Type") + b": " + self.pick("text/html", "multipart/byteranges", "Multipart/ByteRanges; x", "text/multipart/byteranges", "multipart/byte") + CRLF)
            else:
                hs.append(self.header(0.1))
        self.r.shuffle(hs)
        st = self.status("200", "200", "200", "204", "304", "100", "101", "102", "199", "203", "205", "206", "303", "305", "404", "417", "407", "500", "999", "99", "1000", "abc")
        body = self.pick("abc", "3\r\nabc\r\n0\r\n\r\n", "", "abcde", "0\r\n\r\n", "zz\r\nabc", "abc\r\n", "-1\r\nabc", "3\r\nabc\r\nzz\r\nrest")
        m = self.pick("GET", "GET", "GET", "HEAD", "POST", "head", "CONNECT")
        rq = m + b" /r HTTP/1.1\r\nHost: a\r\n" + (b"Expect: 100-continue\r\nContent-Length: 3\r\n" if self.chance(0.2) else b"") + CRLF + (b"abc" if self.chance(0.1) else b"")
        pre = self.interim() if self.chance(0.15) else b""
        if self.chance(0.05):
            pre += self.interim()
        rs = pre + b"HTTP/" + self.pick("1.1", "1.1", "1.0", "0.9") + b" " + st + b" X\r\n" + b"".join(hs) + CRLF + body
        if self.chance(0.3):
            rs += b"HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nhi"
        steps = [step("c", rq)]
        if self.chance(0.4):
            steps += [step("c", b"GET /2 HTTP/1.1\r\nHost: a\r\n\r\n")]
        return scen(steps + [step("s", x) for x in self.cut(rs)] + self.end(0.6), snap=2)

    # -- gaps (C13) --------------------------------------------------------------
    def gaps(self):
        side = self.r.choice(["c", "s"])
        n = self.psize()
        k = self.r.choice(["cl", "cl", "close", "chunked", "head", "line", "between", "before"])
        body = self.data(n)
        if side == "c":
            if k == "close":
                k = "cl"
            head = b"POST /r HTTP/1.1\r\nHost: a\r\n" + (b"Transfer-Encoding: chunked\r\n\r\n" if k == "chunked" else b"Content-Length: %d\r\n\r\n" % n)
        else:
            head = b"HTTP/1.1 200 OK\r\n" + (b"Transfer-Encoding: chunked\r\n\r\n" if k == "chunked" else b"\r\n" if k == "close" else b"Content-Length: %d\r\n\r\n" % n)
        wire = self.chunked([body], 0, b"") if k == "chunked" else body
        msg = head + wire
        nxt = b"GET /next HTTP/1.1\r\nHost: a\r\n\r\n" if side == "c" else b"HTTP/1.1 404 NF\r\nContent-Length: 1\r\n\r\nx"
        if k in ("cl", "close", "chunked"):
            a = len(head) + self.r.randint(0, len(wire))
        elif k == "head":
            a = self.r.randint(18, len(head) - 1)
        elif k == "line":
            a = self.r.randint(1, 14)
        elif k == "between":
            a = len(msg)
        else:
            a = 0
        g = self.r.choice([1, 2, n, max(1, len(msg) - a), max(1, len(msg) - a - 1), max(1, len(msg) - a + 1), 100])
        p = []
        p += [(side, x) for x in self.cut(msg[:a], self.r.choice(["one", "few"]))]
        p.append((side + "g", g))
        if self.chance(0.2):
            p.append((side + "g", self.r.randint(1, 3)))
        p += [(side, x) for x in self.cut(msg[a + g:], self.r.choice(["one", "few"]))]
        if self.chance(0.7):
            p.append((side, nxt))
        if self.chance(0.2):
            p.append((side + "g", self.r.randint(1, 9)))
            p.append((side, nxt))
        st = [step(*x) for x in p]
        if side == "s":
            pre = [step("c", x) for x in [b"GET /r HTTP/1.1\r\nHost: a\r\n\r\n", b"GET /r2 HTTP/1.1\r\nHost: a\r\n\r\n"][:self.r.choice([0, 1, 2, 2])]]
            st = pre + st
        else:
            if self.chance(0.5):
                st += [step("s", b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n")]
            if self.chance(0.3):
                st = [step("c", b"GET /r HTTP/1.1\r\nHost: a\r\n\r\n")] + ([step("s", b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n")] if self.chance(0.5) else []) + st
        cfg = {"txhook": True} if self.chance(0.3) else {}
        if self.chance(0.1):
            cfg["auto_destroy"] = True
        return scen(st + self.end(0.6), cfg, snap=1)

    # -- compression (C14) ---------------------------------------------------------
    def decomp(self):
        n = self.r.choice([0, 1, 5, 20, 100, 300, 300, 8191, 8192, 8193, 9000]) if self.chance(0.4) else self.r.randint(0, 200)
        plain = bytes(self.r.choice(b"abcd \n") for _ in range(n)) if self.chance(0.5) else (b"abcdefgh" * (n // 8 + 1))[:n]
        layers = [self.r.choice(["gzip", "gzip", "deflate", "zlib"])]
        if self.chance(0.35):
            layers.append(self.r.choice(["gzip", "deflate", "zlib"]))
        if self.chance(0.1):
            layers.append(self.r.choice(["gzip", "deflate"]))
        if self.chance(0.15):
            layers = ["lzma"] + (["gzip"] if self.chance(0.3) else [])
        z = plain
        wire_layers = []
        for e in layers:           # innermost first
            z = self.encode(z, e)
            wire_layers.insert(0, z)
        # The header lists encodings in the order the decompressors are applied
        names = [self.CE[e] for e in reversed(layers)]
        if layers[0] != "lzma" and self.chance(0.15):      # gzip called deflate, or the other way round
            names = [self.pick("gzip", "deflate") for _ in names]
        side = self.r.choice(["s", "s", "c"])
        cfg = {"req_decomp": True}
        lim = 2
        if self.chance(0.25):
            lim = self.r.choice([1, 2, 3])
            cfg["layer_limit"] = lim
        if self.chance(0.1):
            cfg["layer_limit"] = None
            lim = 99
        if self.chance(0.1):
            cfg["resp_decomp"] = False
            cfg["req_decomp"] = False
        trunc = self.chance(0.1)
        if trunc:
            z = z[:self.r.randint(0, len(z))]
        if self.chance(0.1):   # trailing bytes after the compressed stream
            z += self.pick("junk", "\x00")
            trunc = True
        ce = self.pick(", ", ",", " ").join(names)
        if self.chance(0.1):
            ce = self.pick("x-gzip", "GZIP", "Gzip", "gzip;x", "none", "inflate", "x-deflate", "DEFLATE", "br", "gzipx", "identity") + (b", " + ce if self.chance(0.5) else b"")
            exact = False
        else:
            exact = True
        comp = not cfg.get("resp_decomp") is False
        if len(layers) > 1 and len(layers) <= lim or len(layers) == 1:
            exp = plain
        else:
            exp = wire_layers[lim] if lim < len(wire_layers) else plain   # layers beyond the limit stay
        if not comp:
            exp = z
        how = self.r.choice(["cl", "chunked", "close"]) if side == "s" else self.r.choice(["cl", "chunked"])
        hd = b"Content-Encoding: " + ce + CRLF
        if how == "chunked":
            pcs = self.cut(z, self.r.choice(["one", "few", "many"])) if len(z) < 400 else self.cut(z, "few")
            hd += b"Transfer-Encoding: chunked\r\n"
            wire = b"".join(b"%x\r\n%s\r\n" % (len(x), x) for x in pcs) + b"0\r\n\r\n"
        else:
            hd += b"Content-Length: %d\r\n" % len(z) if how == "cl" else b""
            wire = z
        mode = self.r.choice(["one", "few", "many", "bytes"]) if len(wire) < 200 else self.r.choice(["one", "few", "many"])
        if self.chance(0.3):
            cfg["txhook"] = True
        meta = {}
        if exact and not (layers[0] == "lzma" and len(layers) > 1):
            done = not trunc and (how != "cl" or len(z) > 0)
            meta = {"plain": [{"side": "r" if side == "c" else "s", "i": 0, "d": lst(exp), "done": done}]} if not trunc else {}
        if side == "c":
            m = b"POST /r HTTP/1.1\r\nHost: a\r\n" + hd + CRLF + wire
            st = [step("c", x) for x in self.cut(m, mode)] + [step("s", b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n")]
        else:
            m = b"HTTP/1.1 200 OK\r\n" + hd + CRLF + wire
            st = [step("c", b"GET /r HTTP/1.1\r\nHost: a\r\n\r\n")] + [step("s", x) for x in self.cut(m, mode)]
        return scen(st + [step("close")], cfg, meta=meta, snap=2)

    def decomp_limits(self):
        """lists of encodings around the layer limits, with a body that need not be decodable"""
        k = self.r.randint(1, 5)
        toks = [self.pick("gzip", "deflate", "lzma", "lzma", "x-gzip", "none", "inflate", "br", "gzipx", "", "LZMA", "GZip", "x-deflate", "xdeflatex") for _ in range(k)]
        ce = b"".join(t + self.pick(", ", ",", " ", ",,") for t in toks)[:-1]
        cfg = {"req_decomp": True}
        if self.chance(0.7):
            cfg["layer_limit"] = self.r.choice([1, 2, 3, 5, None])
        if self.chance(0.7):
            cfg["lzma_layers"] = self.r.choice([1, 2, 3])
        body = self.data(self.r.randint(1, 20))
        hd = self.pick("Content-Encoding", "content-encoding") + b": " + ce + CRLF + b"Content-Length: %d\r\n\r\n" % len(body)
        if self.chance(0.5):
            st = [step("c", b"POST /r HTTP/1.1\r\nHost: a\r\n" + hd + body)]
        else:
            st = [step("c", b"GET /r HTTP/1.1\r\nHost: a\r\n\r\n"), step("s", b"HTTP/1.1 200 OK\r\n" + hd + body)]
        return scen(st + [step("close")], cfg, snap=2)

    def bomb(self):
        """output beyond limit and ratio, one piece of output per call"""
        lim = self.r.choice([10, 50, 100])
        ratio = self.r.choice([1, 2, 5, 20])
        n = self.r.choice([lim - 1, lim, lim + 1, lim * 2, lim * 6])
        plain = b"a" * n if self.chance(0.7) else bytes(self.r.randrange(256) for _ in range(n))
        z = self.gz(plain) if self.chance(0.5) else self.encode(plain, "zlib")
        cfg = {"bomb_limit": lim, "bomb_ratio": ratio, "req_decomp": True}
        name = b"gzip" if z[:2] == b"\x1f\x8b" else b"deflate"
        hd = b"Content-Encoding: " + name + b"\r\nContent-Length: %d\r\n\r\n" % len(z)
        if self.chance(0.4):
            st = [step("c", b"POST /r HTTP/1.1\r\nHost: a\r\n" + hd), step("c", z)]
        else:
            st = [step("c", b"GET /r HTTP/1.1\r\nHost: a\r\n\r\n"), step("s", b"HTTP/1.1 200 OK\r\n" + hd), step("s", z)]
        return scen(st + [step("c", b"GET /n HTTP/1.1\r\n\r\n"), step("s", b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"), step("close")], cfg, snap=1)

    # -- header blocks (C15) -------------------------------------------------------
    def header_block(self, side, odd=0.5):
        pool = [self.hname(odd) for _ in range(self.r.randint(1, 3))]
        hs = []
        for _ in range(self.r.randint(1, 6)):
            hs.append(self.header(odd, name=self.r.choice(pool) if self.chance(0.7) else None))
        if self.chance(0.2):
            hs.append(self.hn("Content-Length") + b": " + self.pick("0", "00", "x") + CRLF)
            hs.append(self.hn("Content-Length") + b": " + self.pick("0", "1", "") + CRLF)
        return b"".join(hs)

    def headers_sc(self, odd=None):
        odd = self.r.choice([0.1, 0.3, 0.5, 0.8]) if odd is None else odd
        if self.chance(0.03):
            n = self.r.randint(60, 70)
            blk = b"".join(b"X: %d\r\n" % i for i in range(n)) + b"Y: 1\r\nY: 2\r\nY: 3\r\n"
        else:
            blk = self.header_block("c", odd)
        trailer = self.chance(0.15)
        te = b"Transfer-Encoding: chunked\r\n\r\n0\r\n" if trailer else b""
        mode = self.r.choice(["one", "one", "few", "many"])
        if self.chance(0.5):
            m = b"GET / HTTP/1.1\r\n" + (b"Host: a\r\n" + te if trailer else b"") + blk + self.hend(0.15)
            st = [step("c", x) for x in self.cut(m, mode)]
        else:
            m = b"HTTP/1.1 200 OK\r\n" + te + blk + self.hend(0.15) + self.pick("", "body")
            st = [step("c", b"GET / HTTP/1.1\r\nHost: a\r\n\r\n")] + [step("s", x) for x in self.cut(m, mode)]
        return scen(st + self.end(0.4), snap=2)

    # -- URIs (C16, C17, C20) ------------------------------------------------------
    def query_sc(self):
        q = self.query(self.r.choice([0.1, 0.5, 0.8]))
        cfg = dict({"parse_urlencoded": True}, **self.dcfg())
        if self.chance(0.2):
            cfg["personality"] = self.r.choice(["IDS", "IIS_6_0", "APACHE_2"])
        u = self.pick("/", "/p", "http://h/p", "") + b"?" + q.replace(b" ", b"+").replace(b"\n", b"") + (b"#f" if self.chance(0.1) else b"")
        return scen([step("c", x) for x in self.cut(b"GET " + u + b" HTTP/1.1\r\nHost: a\r\n\r\n", self.r.choice(["one", "few"]))], cfg, snap=3)

    def urlenc_fn(self):
        d = self.query(self.r.choice([0.1, 0.5, 0.8]))
        if self.chance(0.3):
            d = self.soup(self.r.randint(0, 15), b"a&=%+\x004u1g ")
        cfg = self.dcfg()
        pcs = self.cut(d, self.r.choice(["one", "few", "many", "bytes"])) or [b""]
        if self.chance(0.2):
            pcs.insert(self.r.randint(0, len(pcs)), b"")
        whole = self.chance(0.2)
        return {"fn": "urlenc", "cfg": cfg, "pieces": [lst(d)] if whole else [lst(x) for x in pcs], "whole": whole}

    def path_sc(self):
        odd = self.r.choice([0.2, 0.5, 0.8])
        u = self.path(odd)
        if self.chance(0.3):
            u = self.pick("", "/") + b"/".join(self.pick(".", "..", "a", "b", "", "...", ".a", "a.", "%2e", "%2e%2e", "%2E.", "c") for _ in range(self.r.randint(1, 8)))
        if self.chance(0.2):
            u += b"?" + self.query(odd)
        if self.chance(0.1):
            u += b"#" + self.enc(odd)
        if self.chance(0.1):
            u = b"http://h" + u
        cfg = self.dcfg(self.r.choice([0.2, 0.5, 0.8]))
        if self.chance(0.4):
            cfg["personality"] = self.r.choice(["GENERIC", "IDS", "IIS_5_1", "IIS_6_0", "IIS_7_0", "APACHE_2", "MINIMAL"])
        if self.chance(0.15):
            cfg["bestfit_repl"] = self.r.choice([63, 42, 0, 47])
        u = u.replace(b" ", b"").replace(b"\n", b"").replace(b"\r", b"")
        return scen([step("c", b"GET " + u + b" HTTP/1.1\r\nHost: a\r\n\r\n")], cfg, snap=3)

    # -- what the server is expected to object to (C29) --------------------------
    def reject_sc(self):
        cfg = {}
        if self.chance(0.5):
            cfg["personality"] = self.r.choice(["GENERIC", "IDS", "IIS_5_1", "IIS_6_0", "IIS_7_0", "IIS_7_5", "APACHE_2", "MINIMAL"])
        some = self.r.choice([0.15, 0.5, 0.9])
        for k in ("sep_unwanted", "nul_raw_unwanted", "ctl_unwanted", "u_unwanted", "inv_unwanted", "nul_enc_unwanted", "utf8_unwanted", "lead_ws_unwanted"):
            if self.chance(some):
                cfg[k] = self.r.choice([400, 404, 400, 404, 0])
        for k in ("backslash", "lowercase", "sep_compress", "sep_decode", "nul_raw_term", "u_decode", "nul_enc_term", "bestfit"):
            if self.chance(0.3):
                cfg[k] = self.chance(0.8)
        if self.chance(0.5):
            cfg["inv_handling"] = self.r.choice(["REMOVE", "PROCESS", "PRESERVE"])
        odd = ["%2f", "%2F", "%5c", "/", "\\", "\x00", "%00", "\x01", "\x1f", "%1f", "%20", "%0a", "\x7f", "%u0041", "%u002f", "%u005C", "%uff0f", "%u0000", "%u0100", "%u0001", "%U1234", "%u12", "%uzz41", "%u00zz", "%uzzzz",
               "%zz", "%4", "%", "%%", "%g0", "%0g", "%/1", "%-1", "%c3%a9", "%ff", "\xc3", "\xc3\xa9", "%c0%af", "%ed%a0%80", "\xe2\x82", "+", "%25", "%2e", ".."]
        st = []
        for _ in range(self.r.choice([1, 1, 1, 2])):
            u = b"/" + b"".join(self.pick(*odd) if self.chance(0.5) else self.pick("a", "B", "/", "x1", "", "c/") for _ in range(self.r.choice([0, 1, 1, 2, 3, 6])))
            if self.chance(0.1):
                u = self.pick("http://h", "http://u%zz:p%00@h%ff", "", "//h") + u
            if self.chance(0.15):
                u += b"?" + self.pick("a=%zz", "\x00", "%u0041", "%ff", "%00") + self.pick("", "#%zz", "#\x01")
            m = self.pick("GET", "GET", "GET", "POST", "CONNECT", "get", "X")
            if m == b"CONNECT":
                u = self.pick("a:1", "a%zz:1", "/%zz", "a%00")
            u = u.replace(b" ", b"")
            st.append(step("c", (self.pick("", "", " ", "\t", "  ", "\x0b") if self.chance(0.5) else b"") + m + b" " + u + self.pick(" HTTP/1.1", " HTTP/1.1", " HTTP/1.0", "") + b"\r\nHost: a\r\nContent-Length: 0\r\n\r\n"))
            if self.chance(0.3):
                st.append(step("s", self.pick("HTTP/1.1 400 Bad\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n", "HTTP/1.1 404 Not %zz\r\n\r\n", "%zz")))
        if self.chance(0.1):
            st = [step("c", x) for x in self.cut(bytes(st[0]["d"]))] + st[1:]
        return scen(st + (self.end(0.7) if self.chance(0.1) else []), cfg, snap=3)

    def uri_sc(self):
        odd = self.r.choice([0.05, 0.3, 0.6])
        con = self.chance(0.12)
        if con:
            u = self.host(odd) + ((b":" + self.port(odd)) if self.chance(0.8) else b"")
        elif self.chance(0.6):
            u = (self.pick("http", "HTTPS", "ftp", "x") + b":" if self.chance(0.8) else b"") + b"//" + \
                (self.pick("u@", "u:p@", ":p@", "u:@", "@", "u:p:q@", "%41:%42@", "a@b@") if self.chance(0.4) else b"") + self.host(odd) + \
                ((b":" + self.port(odd)) if self.chance(0.5) else b"") + (self.path(odd) if self.chance(0.8) else b"") + \
                (b"?" + self.query(odd) if self.chance(0.4) else b"") + (b"#" + self.enc(odd) if self.chance(0.3) else b"")
        else:
            u = self.uri(odd)
        u = u.replace(b" ", b"").replace(b"\n", b"").replace(b"\r", b"")
        hs = []
        hostsame = self.chance(0.4)
        for _ in range(self.r.choice([0, 1, 1, 1, 1, 2])):
            hs.append(self.hn("Host") + b": " + (self.pick("example.com", "EXAMPLE.COM", "a.b") if hostsame else self.host(odd)) + ((b":" + self.port(odd)) if self.chance(0.3) else b"") + CRLF)
        if self.chance(0.5):
            hs.append(self.hn("Authorization") + b": " + self.auth() + CRLF)
        if self.chance(0.3):
            hs.append(self.hn("Content-Type") + b": " + self.pick("text/html", "TEXT/Html; charset=x", "a,b", "multipart/form-data;boundary=x", "a b", "") + CRLF)
        self.r.shuffle(hs)
        cfg = {}
        if self.chance(0.2):
            cfg["parse_auth"] = False
        if self.chance(0.2):
            cfg["personality"] = self.r.choice(["GENERIC", "IDS", "APACHE_2", "IIS_7_0"])
        rq = (b"CONNECT" if con else self.pick("GET", "POST", "OPTIONS")) + b" " + u + b" HTTP/" + self.pick("1.1", "1.1", "1.1", "1.0", "1.2") + CRLF + b"".join(hs) + CRLF
        return scen([step("c", x) for x in self.cut(rq, self.r.choice(["one", "one", "few"]))], cfg, snap=3)

    # -- closing (C18) -----------------------------------------------------------
    def closing(self):
        rq, rs = self.conversation(self.r.randint(1, 3), wf=0.85)
        cfg = {}
        for key in ("flush", "flush", "auto_destroy", "txhook"):
            if self.chance(0.35):
                cfg[key] = True
        if self.chance(0.2):
            i = self.r.randrange(len(rs))
            rs[i] = self.wf_response("close", body=self.safe_data(10))[0]
            rs = rs[:i + 1]
        st = self.weave(rq, rs)
        k = self.r.randint(0, len(st))
        st = st[:k]
        if st and self.chance(0.6) and "d" in st[-1] and len(st[-1]["d"]) > 1:
            st[-1] = dict(st[-1], d=st[-1]["d"][:self.r.randint(1, len(st[-1]["d"]))])
        tail = [self.r.choice(["close", "close", "close", "rclose"])]
        if tail[0] == "rclose":
            if self.chance(0.6):
                st.append(step("rclose"))
                st += [step("s", x) for x in self.cut(b"".join(rs), "few")]
                tail = []
            if self.chance(0.6):
                tail.append("close")
        if self.chance(0.3):
            tail.append("close")
        st += [step(x) for x in tail]
        if self.chance(0.15):
            st += [step("c", b"GET / HTTP/1.1\r\n\r\n"), step("s", b"HTTP/1.1 200 OK\r\n\r\n"), step("close")]
        return scen(st, cfg, snap=3)

    # -- logs (C19) -------------------------------------------------------------
    def logging(self):
        s = self.broad(odd=self.r.choice([0.2, 0.5]), verdicts=0.05, gaps=0.1)
        s["cfg"]["log_level"] = self.r.choice(["NONE", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG", "DEBUG2"])
        s["cfg"]["snap"] = 1
        return dict(s, meta={})

    def clean(self):
        """well formed traffic only"""
        n = self.r.randint(1, 3)
        rq, rs = [], []
        for i in range(n):
            r, k, _ = self.wf_request(uri="/r%d" % i)
            rq.append(r)
            rs.append(self.wf_response(self.r.choice(["cl", "cl0", "chunked"] + (["close"] if i == n - 1 else [])), head=k == "head")[0])
        return scen(self.weave(rq, rs, None, self.r.choice(["step", "first"])) + [step("close")], {"log_level": "DEBUG2"}, snap=1)

    # -- raw data (C22) -------------------------------------------------------
    def rawdata(self):
        n = self.r.randint(1, 3)
        rq, rs = [], []
        odd = self.r.choice([0, 0.1, 0.3])
        for i in range(n):
            k = self.r.choice(["none", "cl", "chunked", "chunked"])
            r = self.wf_request(k, uri="/r%d" % i)[0] if odd == 0 else b"POST / HTTP/1.1\r\n" + self.cut_headers(odd, [b"Transfer-Encoding: chunked\r\n"]) + CRLF + self.cut_chunked(odd)
            rq.append(r)
            k = self.r.choice(["cl", "chunked", "chunked", "none"] + (["close"] if i == n - 1 else []))
            s = self.wf_response(k)[0] if odd == 0 else b"HTTP/1.1 200 OK\r\n" + self.cut_headers(odd, [b"Transfer-Encoding: chunked\r\n"]) + CRLF + self.cut_chunked(odd)
            if self.chance(0.25):
                s = self.interim() + s
            rs.append(s)
        if self.chance(0.1):
            rq[0] = b"GET / HTTP/1.1\r\n\r\n"
        if self.chance(0.1):
            rs[-1] = b"HTTP/1.1 200 OK\r\n\r\nbody"
        return scen(self.weave(rq, rs, self.r.choice(["one", "few", "many", "bytes"]), self.r.choice(["step", "first", "join", "rand"])) + self.end(0.5),
                    {"two": True} if self.chance(0.1) else {}, snap=1)

    # -- HTTP/0.9 (C23) ---------------------------------------------------------
    def v09(self):
        line = self.pick("GET /x", "GET /", "GET", "HEAD /x", "get /x", "POST /x", "GET  /x ", "GET\t/x", "GET /x y", " GET /x", "GET /a?b=c", "X")
        e = self.pick("\r\n", "\n", "\r\n")
        k = self.r.randint(0, 6)
        tail = b"" if k == 0 else self.pick("\r\n", " ", "\t \r\n", "  ", " " * 15, " " * 16, " " * 17, "\r\n\r\n\r\n") if k == 1 else self.pick("Host: a\r\n\r\n", "x", "A: b\r\n\r\n", "GET /2\r\n", "nocolon\r\n\r\n") if k < 4 else b""
        first = line + e + tail
        st = []
        if self.chance(0.3):
            st += [step("c", b"GET /first HTTP/1.1\r\nHost: a\r\n\r\n"), step("s", b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n")]
        st += [step("c", x) for x in ([first] if self.chance(0.7) else self.cut(first))]
        ss = [step("s", x) for x in self.cut(self.pick("<html>body</html>", "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nab", "x\r\n\r\ny", "\r\n", "<a>\n<b>\n"))]
        more = [step("c", x) for x in self.cut(self.pick("GET /second HTTP/1.1\r\nHost: a\r\n\r\n", "GET /s\r\n", "  ", "\r\n", "junk"))] if self.chance(0.5) else []
        st += (ss + more) if self.chance(0.5) else (more + ss)
        if self.chance(0.2):
            st.append(step(self.r.choice(["cg", "sg"]), self.r.randint(1, 9)))
        return scen(st + self.end(0.7), snap=2)

    # -- first lines (C24) ------------------------------------------------------
    def lines(self):
        odd = self.r.choice([0.1, 0.4, 0.8])
        cfg = {}
        if self.chance(0.3):
            cfg["allow_space_uri"] = True
        if self.chance(0.3):
            cfg["lead_ws_unwanted"] = 400
        if self.chance(0.3):
            cfg["personality"] = self.r.choice(["APACHE_2", "IDS", "IIS_5_1", "GENERIC"])
        m = self.r.choice(METHODS + ["CONNECT", "get", "GETX", "GE", "X"]) if self.chance(0.6) else None
        rq = self.reqline(odd, m, self.pick("/", "/a", "/a%20b", "*", "/a b", "/x?y") if self.chance(0.6) else None)
        if self.chance(0.15):
            rq = self.soup(self.r.randint(1, 25), b"GET/HTP1.0 \t\x0b\x0c\x00\r") + CRLF
        if self.chance(0.1):
            rq = self.pick("\r\n", "\n", " \r\n", "\t\n", "\x00\r\n") + rq
        hd = b"Host: a\r\n\r\n"
        st = [step("c", x) for x in ([rq + hd] if self.chance(0.7) else self.cut(rq + hd))]
        if self.chance(0.6):
            sl = self.statusline(odd)
            if self.chance(0.3):
                sl = self.pick("HTTP/1.1", "HTTP/1.0", "HTTP/0.9", "HTTP/2.0", " HTTP/1.1", "http/1.1", "HTTP/1.1 ", "\tHTTP/1.1", "HTTP/1.", "HTTP") + self.sp(odd) + self.pick("200", "100", "99", "999", "1000", "099", "2", "20a", "", "200 ", "65536", "+20", "2 0 0") + \
                    self.pick("", " OK", " Two Words", "\tOK", "  OK  ", " ") + self.pick("\r\n", "\n", "\r\r\n", "\r\n")
            if self.chance(0.1):
                sl = self.pick("\r\n", "\n", " \r\n") + sl
            rs = sl + b"Content-Length: 2\r\n\r\nab"
            st += [step("s", x) for x in ([rs] if self.chance(0.7) else self.cut(rs))]
            if self.chance(0.2):
                st += [step("s", b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n")]
        return scen(st + self.end(0.3), cfg, snap=2)

    # -- anything (C21) ---------------------------------------------------------
    def chaos(self):
        k = self.r.randint(0, 3)
        if k == 0:
            s = self.broad(odd=0.9, verdicts=0.3, gaps=0.4)
        elif k == 1:
            s = self.broad(odd=0.4, verdicts=0.2, gaps=0.3)
        else:   # mutated messages
            rq, rs = self.conversation(wf=0.5)

            def mut(d):
                d = bytearray(d)
                for _ in range(self.r.randint(0, 4)):
                    if not d:
                        break
                    i = self.r.randrange(len(d))
                    c = self.r.randint(0, 4)
                    if c == 0:
                        d[i] = self.r.randrange(256)
                    elif c == 1:
                        del d[i:i + self.r.randint(1, 5)]
                    elif c == 2:
                        d[i:i] = self.soup(self.r.randint(1, 4))
                    elif c == 3:
                        d[i:i] = d[i:i + 10]
                    else:
                        d[i:i] = self.pick("\r\n", "\n", ":", " ", "\x00", "HTTP/1.1", "0\r\n\r\n", "%u", "%")
                return bytes(d)
            steps = self.weave([mut(x) for x in rq], [mut(x) for x in rs])
            for _ in range(self.r.randint(0, 3)):
                steps.insert(self.r.randint(0, len(steps)), self.r.choice([step("cg", self.r.choice([0, 1, 7, 1000000])), step("sg", self.r.choice([0, 1, 7, 1000000])), step("close"), step("rclose"), step("rm", self.r.randint(0, 3)),
                                                                         step("open"), step("c", b""), step("s", b""), step("cr"), step("sr")]))
            s = scen(steps, self.cfg(0.5), snap=3, open_=self.chance(0.95))
        return dict(s, meta={})


_LZ = {}


def lzma_known(plain):
    """lzma-alone stream with a known size and no end marker, as libhtp's decoder wants it"""
    z = _lzma.compress(plain, format=_lzma.FORMAT_ALONE, filters=[{"id": _lzma.FILTER_LZMA1, "dict_size": 4096}])
    return z
