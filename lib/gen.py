"""Scenario generators: sequences of public calls, built from HTTP messages with
all the spellings and anomalies the specification distinguishes."""
import random

METHODS = """GET HEAD POST PUT DELETE OPTIONS TRACE PATCH PROPFIND PROPPATCH MKCOL COPY MOVE LOCK UNLOCK
VERSION-CONTROL CHECKOUT UNCHECKOUT CHECKIN UPDATE LABEL REPORT MKWORKSPACE MKACTIVITY BASELINE-CONTROL MERGE INVALID""".split()
CRLF = b"\r\n"


def b(x):
    return x if isinstance(x, bytes) else x.encode("latin1")


class Gen:
    fine = False     # keep very fine cuts as often as asked for

    def __init__(self, seed):
        self.r = random.Random(seed)

    # -- helpers ------------------------------------------------------------
    def pick(self, *xs):
        return b(self.r.choice(xs))

    def chance(self, p):
        return self.r.random() < p

    def status(self, *usual):
        """a status: one of the usual ones, or any"""
        k = self.r.random()
        if usual and k < 0.6:
            return self.pick(*usual)
        if k < 0.95:
            return b"%d" % self.r.choice([self.r.randint(100, 599), self.r.choice(range(100, 600, 100)) + self.r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 17, 98, 99])])
        return b"%d" % self.r.choice([0, 1, 9, 10, 98, 99, 600, 998, 999, 1000, 1001, self.r.randint(0, 1100), 65535, 65536, 65636, 2 ** 31, 2 ** 32 + 200])

    def soup(self, n, alphabet=b"aZ0 \t\r\n:;=&%+/\\.?#@[]\x00\x80\xff,\""):
        return bytes(self.r.choice(alphabet) for _ in range(n))

    def eol(self, odd=0.1):
        return self.pick("\r\n") if not self.chance(odd) else self.pick("\n", "\r\n", "\r\r\n", "\n\r", "\r")

    def token(self, lo=1, hi=10):
        """a random token"""
        return bytes(self.r.choice(b"abcxyzABCXYZ019!#$%&'*+-.^_`|~") for _ in range(self.r.randint(lo, hi)))

    def text(self, lo=0, hi=14):
        """random printable text, now and then with other bytes"""
        odd = self.chance(0.3)
        return bytes(self.r.randrange(256) if odd and self.chance(0.2) else self.r.choice(b"abcXYZ019 ,;:=/\"\t()<>@[]{}?-") for _ in range(self.r.randint(lo, hi))).replace(b"\n", b"n").replace(b"\r", b"r")

    def case(self, x):
        """any spelling as to case"""
        x = b(x)
        k = self.r.randint(0, 5)
        return x if k < 3 else x.lower() if k == 3 else x.upper() if k == 4 else bytes(c ^ 32 if chr(c).isalpha() and self.chance(0.5) else c for c in x)

    # -- URIs ---------------------------------------------------------------
    def pct(self):
        """a random encoded character"""
        k = self.r.randint(0, 9)
        if k <= 3:
            c = self.r.choice([self.r.randrange(256), self.r.choice(b"/\\.%aA \x00\x01\x1f \x7f+?#;:@&=")])
            return self.r.choice([b"%%%02x", b"%%%02X"]) % c
        if k <= 5:
            c = self.r.choice([self.r.randrange(65536), self.r.randrange(256), self.r.randrange(0xff00, 0x10000), self.r.randrange(0x100, 0x180), self.r.randrange(0x2000, 0x2100)])
            return self.r.choice([b"%%u%04x", b"%%U%04X", b"%%u%04X"]) % c
        if k == 6:
            u = self.r.choice([self.r.randrange(0x80, 0x800), self.r.randrange(0x800, 0xd800), self.r.randrange(0xff00, 0xfff0), self.r.randrange(0x10000, 0x110000)])
            e = chr(u).encode("utf8")
            return b"".join(b"%%%02x" % c for c in e) if self.chance(0.5) else e
        if k == 7:
            e = bytes(self.r.choice([0xc0, 0xc1, 0xc2, 0xe0, 0xe2, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0x80, 0xbf, 0xaf, 0x90, 0x41]) for _ in range(self.r.randint(1, 4)))
            return b"".join(b"%%%02x" % c for c in e) if self.chance(0.5) else e
        if k == 8:
            return b"%" + bytes(self.r.choice(b"0123456789abcdefABCDEFuUgz%/") for _ in range(self.r.randint(0, 5)))
        return bytes([self.r.randrange(33, 256)])

    def enc(self, odd=0.5):
        """a path or query fragment"""
        simple = ["a", "b", "x1", "A", "-", "_", "z.html"]
        weird = ["%41", "%2f", "%5c", "%00", "%2e", "%zz", "%", "%a", "%u0041", "%u002f", "%uff0f", "%u00", "%uzzzz", "+", "\\", ".", "..",
                 "%c0%af", "%c3%a9", "%e2%82%ac", "%f0%9f%98%80", "%ff", "\xc3\xa9", "\xe2\x82\xac", "\xc0\xaf", "\xff", "\xef\xbc\x8f",
                 "%ef%bc%8f", "%uff41", "%u0100", "%u1234", "%25", "%2541", "%252f", "\x01", "\x7f", "//", "/./", "/../", ";", "%2F%2f", "%U0041", "%u005c",
                 "\xe0\x80\xaf", "%e0%80%af", "\xf0\x80\x80\xaf", "%0", "%1g", "%g1", "%u12g4", "%00x", "%u0000", "\xed\xa0\x80", "%D0%B0", "\xef\xbb\xbf"]
        return b"".join(self.pct() if self.chance(odd * 0.4) else b(self.r.choice(weird if self.chance(odd) else simple)) for _ in range(self.r.randint(1, 5)))

    def path(self, odd=0.3):
        return b"/" + b"/".join(self.enc(odd) for _ in range(self.r.randint(0, 4)))

    def query(self, odd=0.3):
        ps = []
        for _ in range(self.r.randint(0, 4)):
            k = self.r.randint(0, 5)
            ps.append(self.enc(odd) if k == 0 else b"" if k == 1 else self.enc(odd) + b"=" if k == 2 else b"=" + self.enc(odd) if k == 3
                      else self.enc(odd) + b"=" + self.enc(odd))
        return b"&".join(ps)

    def host(self, odd=0.2):
        if not self.chance(odd):
            return self.pick("example.com", "a.b", "EXAMPLE.com", "localhost", "10.0.0.1")
        if self.chance(0.4):
            k = self.r.randint(0, 3)
            if k == 0:     # lengths around the limits
                ls = [b"a" * self.r.choice([1, 3, 62, 63, 64, 65]) for _ in range(self.r.randint(1, 5))]
                return b".".join(ls) + self.pick("", "", ".", "..")
            if k == 1:
                return (b"ab." * 90)[:self.r.randint(250, 260)]
            if k == 2:
                return bytes(self.r.choice(b"abz019.-_ABZ") for _ in range(self.r.randint(1, 12)))
            return bytes(self.r.choice([self.r.choice(b"abz019.-_[]:%@"), self.r.randrange(33, 256)]) for _ in range(self.r.randint(1, 8)))
        return self.pick("[::1]", "[fe80::1]x", "a..b", "a b", "", "-a", "a_b.c", "a" * 70 + ".com", "ex%41mple.com", "[::1", "a.b.", "\xff", "a/b",
                         ("a" * 60 + ".") * 5, "[", "[]", ".")

    def port(self, odd=0.3):
        return (self.pick("80", "8080", "443") if self.chance(0.6) else b"%d" % self.r.randint(1, 70000)) if not self.chance(odd) else self.pick("1", "080", "00", "65534", "6553555", "\t80", "8 0", "4294967376", "2147483728", "", "0", "65535", "65536", "-1", "abc", "80x", " 80", "80 ", "99999999999")

    def uri(self, odd=0.3):
        k = self.r.randint(0, 9)
        if k < 6:
            u = self.path(odd)
        elif k == 6:
            u = self.pick("http", "HTTP", "ftp", "x") + b"://" + \
                (self.pick("", "u@", "u:p@", ":p@", "u:@", "@", "u:p:q@") if self.chance(0.5) else b"") + self.host(odd) + \
                ((b":" + self.port(odd)) if self.chance(0.5) else b"") + (self.path(odd) if self.chance(0.8) else b"")
        elif k == 7:
            u = self.pick("*", "a", "?", "#", "//h/p", "http:/p", "http:p", "http:///p", ":80", "//", "x:y", "a/b", "http://[::1]:80/x", "//a:b@c:1/d")
        else:
            u = self.path(odd)
        if self.chance(0.4):
            u += b"?" + self.query(odd)
        if self.chance(0.1):
            u += b"#" + self.enc(odd)
        return u.replace(b" ", b"")

    # -- first lines --------------------------------------------------------
    def proto(self, odd=0.15):
        return self.pick("HTTP/1.1", "HTTP/1.1", "HTTP/1.1", "HTTP/1.0") if not self.chance(odd) else \
            b"HTTP" + self.pick("", "", " ", "\t") + b"/" + self.pick("", "", " ", "  ") + b"%d.%d" % (self.r.randint(0, 3), self.r.randint(0, 10)) if self.chance(0.3) else \
            self.pick("HTTP/0.9", "HTTP/1.2", "HTTP/2.0", "HTTP/1.", "HTTP/", "http/1.1", "HTTP / 1.1", "HTTP/ 1.1", "HTTP/1.1x", "HTTP/01.1", "XTTP/1.1", "HTTP/1.10", "HTTP /1.0", "HTTP\t/1.1", "JUNK")

    def method(self, odd=0.1, body=False):
        if self.chance(odd):
            if self.chance(0.3):
                return self.case(self.r.choice(METHODS)) if self.chance(0.5) else self.token()
            return self.pick("get", "GETX", "X", "", "G\x00", "HELO", "post", "\xff")
        return self.pick("GET", "GET", "POST", *METHODS) if not body else self.pick("POST", "PUT")

    def sp(self, odd=0.1):
        return b" " if not self.chance(odd) else self.pick("  ", "\t", " \t ", "\x0b", "\x0c", "\x00")

    def reqline(self, odd=0.2, method=None, uri=None, proto=None, eol=None):
        m = self.method(odd * 0.5) if method is None else b(method)
        u = self.uri(odd) if uri is None else b(uri)
        p = self.proto(odd) if proto is None else b(proto)
        lead = self.pick(" ", "\t", "\x00", "  ") if self.chance(odd * 0.2) else b""
        trail = self.pick(" ", "\t", "  \t") if self.chance(odd * 0.3) else b""
        mid = b" " + self.enc(odd) if self.chance(odd * 0.15) else b""
        line = lead + m + self.sp(odd) + u + mid + self.sp(odd) + p + trail
        if self.chance(odd * 0.1):
            line = line.replace(b" ", b"", 1)
        return line + (self.eol(odd * 0.3) if eol is None else eol)

    def statusline(self, odd=0.2, status=None, eol=None):
        s = b(status) if status is not None else (self.status("200", "200", "404", "302", "500", "206", "401") if not self.chance(odd) else
            self.pick("100", "99", "999", "1000", "0", "", "abc", "20x", " 200", "-1", "102", "204", "304", "2 00", "18446744073709551615", "+200", "0200"))
        m = (self.pick("OK", "Not Found", "") if self.chance(0.8) else self.text()) if not self.chance(odd) else self.pick("O K", "\tOK ", " OK", "\x00", "\xff\xfe")
        lead = self.pick(" ", "\t", "\x00") if self.chance(odd * 0.2) else b""
        line = lead + self.proto(odd) + self.sp(odd * 0.5) + s + (b" " + m if m or self.chance(0.5) else b"")
        if self.chance(odd * 0.1):
            line = self.pick("JUNK LINE", "HTTP", "HTTP/1.1", "  HTTP/1.1 200 OK", "htt", "<html>", " ", "HTTP/1.1200 OK")
        return line + (self.eol(odd * 0.3) if eol is None else eol)

    # -- headers ------------------------------------------------------------
    def hname(self, odd=0.2):
        if self.chance(0.15):
            return self.token() if not self.chance(odd) else self.text(0, 6).replace(b":", b"")
        return self.pick("X-A", "X-B", "Accept", "Cookie", "x-a", "User-Agent", "Date") if not self.chance(odd) else \
            self.pick("", " X", "X ", "X\t", "\tX", "X@Y", "X Y", "X\x00Y", "X(1)", "\xff", "X\x00", " ", "X-\x7f", "\"q\"", "X\x01", "x\ty")

    def hvalue(self, odd=0.2):
        if self.chance(0.15):
            return self.text()
        return self.pick("1", "abc", "a, b", "Mon, 01 Jan", "x=y; z") if not self.chance(odd) else \
            self.pick("", " ", "a\tb", "a\x00b", "  padded  ", "\xff", ":", "a:b", "\t", "a" * 40, "\x00", "a\rb")

    def header(self, odd=0.2, name=None, value=None, fold=None):
        n = self.hname(odd) if name is None else b(name)
        v = self.hvalue(odd) if value is None else b(value)
        k = self.r.random()
        sep = b": " if not self.chance(odd * 0.5) else self.pick(":", ":  ", ":\t", " : ", "", " ", ":\x00", "\t:")
        h = n + sep + v
        if self.chance(odd * 0.3) if fold is None else fold:
            for _ in range(self.r.randint(1, 2)):
                h += self.eol(odd * 0.3) + self.pick(" ", "\t", "  ", " \t", "\x00" if self.chance(0.1) else " ") + (self.hvalue(odd) if self.chance(0.8) else self.pick("a: b", "", ":"))
        return h + self.eol(odd * 0.3)

    def headers(self, odd=0.2, n=None, extra=()):
        hs = [self.header(odd) for _ in range(self.r.randint(0, 4) if n is None else n)]
        for e in extra:
            hs.insert(self.r.randint(0, len(hs)), e)
        return b"".join(hs)

    def hend(self, odd=0.05):
        return CRLF if not self.chance(odd) else self.pick("\n", "\r\n", "\r\r\n", "\n\r\n", "\r")

    # -- bodies -------------------------------------------------------------
    def data(self, n=None):
        n = (self.r.randint(0, 12) if self.chance(0.9) else self.r.choice([15, 16, 17, 99, 100, 101, 255, 256, 257, self.r.randint(13, 400)])) if n is None else n
        k = self.r.randint(0, 3)
        if k == 0:
            return bytes(self.r.randrange(256) for _ in range(n))
        if k == 1:
            return (b"GET / HTTP/1.1\r\n\r\n0\r\n\r\n" * (n // 20 + 1))[:n]
        if k == 2:
            return (b"\r\n\r\n0\r\n\r\nHTTP/1.1 200 OK\r\n" * (n // 20 + 1))[:n]
        return bytes(self.r.choice(b"abcXYZ \r\n0") for _ in range(n))

    def psize(self, hi=20):
        """the size of a chunk or a body, now and then a larger one"""
        return self.r.randint(1, hi) if self.chance(0.92) else self.r.choice([31, 32, 33, 63, 64, 99, 100, 127, 128, 255, 256, 257, 300, self.r.randint(21, 600)])

    def chunk_line(self, n, odd=0.15):
        s = b"%x" % n
        if self.chance(odd):
            s = self.r.choice([b"%X" % n, b"0%x" % n, b" %x" % n, b"%x " % n, b"%x;a=b" % n, b"%x ; x" % n, b"000%x" % n, b"%x\t" % n, b"%x;" % n])
        return s + (self.eol(odd * 0.3))

    def chunked(self, parts=None, odd=0.15, trailer=None):
        parts = [self.data(self.psize()) for _ in range(self.r.randint(0, 3))] if parts is None else parts
        out = b""
        for x in parts:
            out += self.chunk_line(len(x), odd) + x + self.eol(odd * 0.3)
        out += self.chunk_line(0, odd)
        if trailer is None:
            trailer = self.headers(odd, self.r.randint(0, 2)) if self.chance(0.3) else b""
        return out + trailer + self.hend(odd * 0.2)

    def bad_chunked(self):
        return self.pick("zz\r\nabc\r\n", "-1\r\n", "\r\n", "g", "ffffffffffffffff\r\nabc", "80000000\r\nabc", "7fffffff\r\nabc", "1\r\nabc\r\n", " \r\n3\r\nabc\r\n0\r\n\r\n",
                         "3\r\nabcX\r\n0\r\n\r\n", "3 x\r\nabc\r\n0\r\n\r\n", "0x3\r\nabc\r\n0\r\n\r\n", "\n\n3\r\nabc\r\n0\r\n\r\n", "0\r\n", "3;\r\nabc\r\n0;x\r\nT: 1\r\n\r\n",
                         "\x0b3\r\nabc\r\n0\r\n\r\n", "1234567890\r\nabc", "00000000000000000003\r\nabc\r\n0\r\n\r\n")

    # -- messages -----------------------------------------------------------
    def clval(self, n, odd=0.1):
        return b"%d" % n if not self.chance(odd) else self.r.choice([b" %d" % n, b"%d " % n, b"0%d" % n, b"%dx" % n, b"x%d" % n, b"", b"abc", b"-%d" % n, b"+%d" % n, b"%d, %d" % (n, n), b"\"%d\"" % n, b"99999999999999999999", b"4294967296", b"%d.0" % n, b"%d\t%d" % (n, n), b"2147483647", b"2147483648"])

    def request(self, odd=0.2, kind=None, **kw):
        kind = kind or self.r.choice(["none", "none", "cl", "chunked", "te_cl", "host", "auth", "ct", "double_cl", "bad_chunk"])
        extra = []
        if self.chance(0.7):
            extra.append(self.header(odd * 0.3, "Host" if not self.chance(odd) else self.r.choice(["host", "HOST", "Host "]),
                                     self.host(odd) + ((b":" + self.port(odd)) if self.chance(0.3) else b""), fold=False))
        body = b""
        method = kw.pop("method", None)
        if kind in ("cl", "double_cl"):
            d = self.data()
            n = len(d) if not self.chance(odd * 0.3) else max(0, len(d) + self.r.choice([-1, 1, 5]))
            extra.append(self.header(odd * 0.2, self.r.choice(["Content-Length", "content-length", "CONTENT-LENGTH"]), self.clval(n, odd * 0.4), fold=self.chance(odd * 0.1)))
            if kind == "double_cl":
                extra.append(self.header(odd * 0.2, "Content-Length", self.clval(n if self.chance(0.5) else n + 1, odd), fold=False))
            body = d
        elif kind in ("chunked", "te_cl", "bad_chunk"):
            extra.append(self.header(odd * 0.2, self.r.choice(["Transfer-Encoding", "transfer-encoding"]),
                         "chunked" if not self.chance(odd * 0.4) else self.r.choice(["Chunked", "gzip, chunked", "identity", "chunke", "xchunkedx", "chunked, chunked", "chun\0ked"]), fold=self.chance(odd * 0.1)))
            if kind == "te_cl":
                extra.append(self.header(odd * 0.2, "Content-Length", self.clval(3), fold=False))
            body = self.bad_chunked() if kind == "bad_chunk" else self.chunked(odd=odd * 0.5)
        elif kind == "auth":
            extra.append(self.header(0, "Authorization", self.auth(), fold=False))
        elif kind == "ct":
            extra.append(self.header(odd * 0.3, "Content-Type", self.pick("text/html", "TEXT/Html; charset=x", "application/x-www-form-urlencoded", "", " ", "a,b", "multipart/form-data;boundary=x", "a b"), fold=False))
        if self.chance(odd * 0.15):
            extra.append(self.header(0, "Expect", self.pick("100-continue", "100-Continue", "x"), fold=False))
        if self.chance(odd * 0.1):
            extra.append(self.header(0, "Content-Encoding", self.pick("gzip", "deflate", "none", "x"), fold=False))
        return self.reqline(odd, method, **kw) + self.headers(odd, extra=extra) + self.hend(odd * 0.1) + body

    def auth(self):
        k = self.r.randint(0, 6)
        if k == 0:
            import base64
            z = base64.b64encode(self.text(0, 8) + (b":" if self.chance(0.8) else b"") + self.text(0, 8))
            if self.chance(0.2):
                z = z.rstrip(b"=")
            return self.case("Basic") + self.pick(" ", " ", "  ", "\t", "") + z + self.pick("", "", " ", "x", "=", " x")
        if k == 1:
            return self.case("Digest") + self.pick(" ", "  ", "") + self.pick("", "a=b, ", "realm=\"x\", ") + self.pick("username", "username", "Username", "xusername") + self.pick("=", "=", " =", "= ", "=  ") + \
                self.pick("\"", "\"", "") + self.r.choice([self.text(0, 8), b"a\\\"b", b"a\\b", b"\\\\", b"u"]) + self.pick("\"", "\"", "") + self.pick("", ", x=y", " ")
        if k == 2:
            return self.case("Bearer") + self.pick(" ", "  ", "\t", "") + self.text(0, 10)
        return self.pick("Basic QWxhZGRpbjpvcGVuIHNlc2FtZQ==", "basic dTpw", "Basic", "Basic ", "Basic ####", "Basic dXNlcg==", "Basic  dTpw", "Basic dTpwOng=", "Basic OnA=",
                         "Basic dTo=", "Basic dTpw dTpw", "Basic dTp", "Basic d\x00Tpw",
                         "Digest username=\"u\", realm=\"r\"", "Digest realm=\"r\", username=\"a\\\"b\"", "Digest username=u", "digest username=\"u", "Digest", "Digest username = \"u\"", "Digest username=\"\"",
                         "Digest username=  \"u v\"", "Digest xusername=\"q\" username=\"u\"",
                         "Bearer abc.def", "Bearer", "Bearer  x y", "bearer tok", "Bearer \t", "Negotiate abc", "", "Basicx dTpw", "Bearerx", " Basic dTpw")

    def response(self, odd=0.2, kind=None, status=None):
        kind = kind or self.r.choice(["none", "cl", "cl", "chunked", "close", "te_cl", "double_cl", "bad_chunk"])
        extra = []
        body = b""
        if kind in ("cl", "double_cl"):
            d = self.data()
            n = len(d) if not self.chance(odd * 0.3) else max(0, len(d) + self.r.choice([-1, 1, 5]))
            extra.append(self.header(odd * 0.2, self.r.choice(["Content-Length", "content-length"]), self.clval(n, odd * 0.4), fold=self.chance(odd * 0.1)))
            if kind == "double_cl":
                extra.append(self.header(odd * 0.2, "Content-Length", self.clval(n if self.chance(0.5) else n + 1, odd), fold=False))
            body = d
        elif kind in ("chunked", "te_cl", "bad_chunk"):
            extra.append(self.header(odd * 0.2, "Transfer-Encoding",
                         "chunked" if not self.chance(odd * 0.4) else self.r.choice(["Chunked", "gzip, chunked", "identity", "xchunked"]), fold=False))
            if kind == "te_cl":
                extra.append(self.header(odd * 0.2, "Content-Length", self.clval(3), fold=False))
            body = self.bad_chunked() if kind == "bad_chunk" else self.chunked(odd=odd * 0.5)
        elif kind == "close":
            body = self.data(self.r.randint(0, 30))
        if self.chance(0.2):
            extra.append(self.header(odd * 0.3, "Content-Type", self.pick("text/html", "TEXT/Html; charset=x", "multipart/byteranges; b=x", "a b"), fold=False))
        if status is None and self.chance(0.3):
            status = self.status("200", "204", "304", "100", "101", "102", "199", "301", "404", "417", "407", "500")
        if status in ("101", b"101") and self.chance(0.5):
            extra.append(self.header(0, "Upgrade", self.pick("h2c", "websocket", "H2C", "xh2cx"), fold=False))
        return self.statusline(odd, status) + self.headers(odd, extra=extra) + self.hend(odd * 0.1) + body

    # -- scenarios ----------------------------------------------------------
    def cut(self, data, mode=None):
        """cut bytes into non-empty pieces"""
        if not data:
            return []
        mode = mode or self.r.choice(["one", "one", "bytes", "few", "few", "many"])
        if mode == "one":
            return [data]
        if mode in ("bytes", "many") and not self.fine and self.chance(0.6):
            mode = "few"
        if mode == "bytes" and len(data) > 220:
            mode = "many"
        if mode == "bytes":
            return [data[i:i + 1] for i in range(len(data))]
        n = self.r.randint(1, 3) if mode == "few" else min(40, max(2, len(data) // 4))
        edges = [i for i in range(1, len(data)) if data[i - 1] in b"\r\n" or data[i] in b"\r\n"]
        cuts = sorted(set(self.r.choice(edges) if edges and self.chance(0.4) else self.r.randint(1, max(1, len(data) - 1)) for _ in range(n)))
        return [x for x in (data[i:j] for i, j in zip([0] + cuts, cuts + [len(data)])) if x]

    def cfg(self, odd=0.3):
        c = {}
        r = self.r
        if self.chance(odd):
            c["personality"] = r.choice(["MINIMAL", "GENERIC", "IDS", "IIS_4_0", "IIS_5_0", "IIS_5_1", "IIS_6_0", "IIS_7_0", "IIS_7_5", "APACHE_2"])
        for k, vs in (("auto_destroy", [True]), ("flush", [True]), ("parse_urlencoded", [True]), ("parse_auth", [False]), ("allow_space_uri", [True]),
                      ("lead_ws_unwanted", [400]), ("field_limit", [8, 20, 50, 100, 200]), ("max_tx", [1, 2, 3]), ("two", [True]), ("txhook", [True]),
                      ("resp_decomp", [False]), ("req_decomp", [True]), ("log_level", ["NONE", "ERROR", "WARNING", "INFO", "DEBUG2"])):
            if self.chance(odd * 0.25):
                c[k] = r.choice(vs)
        if self.chance(odd):
            c.update(self.dcfg())
        return c

    def dcfg(self, p=0.4):
        """decoder settings"""
        c = {}
        for k in ("backslash", "lowercase", "sep_compress", "sep_decode", "nul_raw_term", "u_decode", "nul_enc_term", "bestfit", "double_decode_path", "double_decode_query"):
            if self.chance(p):
                c[k] = True
        if self.chance(p * 0.5):
            c["plusspace"] = False
        if self.chance(p):
            c["inv_handling"] = self.r.choice(["REMOVE", "PROCESS", "PRESERVE"])
        for k in ("sep_unwanted", "nul_raw_unwanted", "ctl_unwanted", "u_unwanted", "inv_unwanted", "nul_enc_unwanted", "utf8_unwanted"):
            if self.chance(p * 0.4):
                c[k] = self.r.choice([400, 404])
        return c

    def steps_from(self, cs, ss, order="rand"):
        """interleave the pieces of the two directions"""
        out = []
        cs, ss = list(cs), list(ss)
        while cs or ss:
            c = cs and (not ss or self.r.random() < len(cs) / (len(cs) + len(ss)) if order == "rand" else bool(cs))
            d = cs.pop(0) if c else ss.pop(0)
            op = "c" if c else "s"
            if isinstance(d, int):
                out.append({"op": op + "g", "n": d})
            else:
                out.append({"op": op, "d": list(d)})
                if self.chance(0.3):
                    out.append({"op": self.r.choice(["cr", "sr"])})
        return out

    def broad(self, odd=0.2, verdicts=0.1, gaps=0.1, cut=None):
        """a connection with anything on it"""
        n = self.r.randint(1, 4)
        reqs = [self.request(odd) for _ in range(n)]
        resps = [self.response(odd) for _ in range(n if self.chance(0.7) else self.r.randint(0, n + 1))]
        if self.chance(0.1):
            reqs[self.r.randrange(n)] = self.reqline(odd, "CONNECT", self.r.choice(["a.com:443", "a.com", "[::1]:80", "", "x:y"])) + self.headers(odd) + CRLF
        if self.chance(0.08):
            reqs[self.r.randrange(n)] = self.pick("GET /x\r\n", "GET /x\n", "GET /x\r\nHost: a\r\n\r\n", "GET\r\n", "GET /y\r\n\r\n", "\r\nGET /\r\n")
        if self.chance(0.1):
            resps.insert(0, self.pick("HTTP/1.1 100 Continue\r\n\r\n", "HTTP/1.1 100 Continue\r\nA: b\r\n\r\n", "HTTP/1.1 100 C\r\nContent-Length: 2\r\n\r\nab"))
        if self.chance(odd * 0.3):
            reqs.insert(self.r.randint(0, n), self.soup(self.r.randint(1, 30)))
        if self.chance(odd * 0.3):
            resps.insert(self.r.randint(0, len(resps)), self.soup(self.r.randint(1, 30)))
        cs = self.cut(b"".join(reqs), cut) if self.chance(0.5) else [y for x in reqs for y in self.cut(x, cut)]
        ss = self.cut(b"".join(resps), cut) if self.chance(0.5) else [y for x in resps for y in self.cut(x, cut)]
        for l in (cs, ss):
            if self.chance(gaps):
                l.insert(self.r.randint(0, len(l)), self.r.choice([1, 2, 3, 5, 10, 100]))
        steps = self.steps_from(cs, ss, self.r.choice(["rand", "seq"]))
        if self.chance(0.1):
            steps.insert(self.r.randint(0, len(steps)), {"op": self.r.choice(["rclose", "close"])})
        if self.chance(0.1):
            for _ in range(self.r.randint(1, 3)):
                steps.insert(self.r.randint(0, len(steps)), {"op": "rm", "n": self.r.randint(0, 3)})
        if self.chance(0.7):
            steps.append({"op": self.r.choice(["close", "close", "rclose"])})
        if self.chance(0.1):
            steps += self.steps_from([self.request(odd)], [self.response(odd)])
        if self.chance(0.97):
            steps.insert(0, {"op": "open"})
        vd = []
        if self.chance(verdicts):
            for _ in range(self.r.randint(1, 2)):
                vd.append({"h": self.r.choice(HOOKS), "w": self.r.choice([1, 1, 1, 2]), "n": self.r.randint(0, 3), "ret": self.r.choice(["STOP", "ERROR", "DECLINED", "STOP", "ERROR"])})
        return {"cfg": dict(self.cfg(), snap=3), "verdicts": vd, "steps": steps}


HOOKS = ["request_start", "request_line", "request_uri_normalize", "request_headers", "request_trailer", "request_complete", "response_start", "response_line",
         "response_headers", "response_trailer", "response_complete", "transaction_complete", "request_header_data", "request_body_data", "request_trailer_data",
         "response_header_data", "response_body_data", "response_trailer_data", "tx_request_body_data", "tx_response_body_data"]
