"""Systematic neighbourhoods: every single edit of the marked part («...») of
template messages, and every action at every byte position of template
conversations.  The specification is total, so each of them is judged."""
import gzip as _gz
import zlib as _zl

ALPHABET = b"\t\x0b\x0c\r\n \x00\x1f\x7f\x80\xff09aZ/:.-+;%\"\\?#@[],=&_("
NUMS = [0, 1, 2, 9, 10, 15, 16, 99, 100, 101, 102, 199, 200, 204, 205, 206, 299, 300, 304, 400, 416, 417, 999, 1000, 65535, 65536, 2147483647, 2147483648, 9223372036854775807, 9223372036854775808, 18446744073709551616]
L, R = b"\xc2\xab", b"\xc2\xbb"


def T(*calls, **cfg):
    """a template: calls are (op, text) with one marked part altogether"""
    return [(op, x.encode("utf-8") if isinstance(x, str) else x) for op, x in calls], cfg


def C(x):
    return ("c", x)


def S(x):
    return ("s", x)


GET = C("GET /1 HTTP/1.1\r\nHost: a\r\n\r\n")
END = S("HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok")
GZ = _gz.compress(b"hello hello hello", mtime=0)
DF = _zl.compress(b"hello hello hello")


def both(head, body, suffix=b""):
    """head with a mark in UTF-8, and a body of any bytes"""
    return head.encode("utf-8") + body + suffix


NEAR = {
    "C24": [
        T(C("«GET /a HTTP/1.1»\r\nHost: a\r\n\r\n")), T(C("« GET\t/a b  HTTP / 0.9 »\r\nHost: a\r\n\r\n")), T(C("«POST  /x?y HTTP/01.0»\nHost: a\n\n")),
        T(C("«GET /a b HTTP/1.1»\r\nHost: a\r\n\r\n"), allow_space_uri=True), T(C("« PUT /a HTTP/1.1 »\r\nHost: a\r\n\r\n"), lead_ws_unwanted=400, personality="APACHE_2"),
        T(C("«GET /a\x00b HTTP/1.1»\r\nHost: a\r\n\r\n"), personality="APACHE_2"), T(C("«OPTIONS * HTTP/1.1»\r\nHost: a\r\n\r\n"), personality="IIS_5_1"),
        T(GET, S("«HTTP/1.1 200 OK»\r\nContent-Length: 2\r\n\r\nab")), T(GET, S("« HTTP / 01.0\t404 Not  Found »\r\nContent-Length: 2\r\n\r\nab")),
        T(GET, S("«HTTP/0.9 100»\nContent-Length: 2\n\nab")), T(GET, S("«http/1.1  999\tx y»\r\n\r\nab")), T(GET, S("«HTTP/1.1 302»\r\nContent-Length: 2\r\n\r\nab"), S("HTTP/1.1 200 OK\r\n\r\n"))],
    "C20": [
        T(C("GET «http://u:p@Ex.com:80/p?q=1#f» HTTP/1.1\r\nHost: ex.com\r\n\r\n")), T(C("GET «//h.com:1/x» HTTP/1.1\r\nHost: h.com\r\n\r\n")), T(C("GET «HTTPS://[fe80::1]:443» HTTP/1.1\r\nHost: [fe80::1]\r\n\r\n")),
        T(C("GET / HTTP/1.1\r\nHost: «a-b.com:8080»\r\n\r\n")), T(C("GET / HTTP/1.1\r\nHost: «[::1]:80»\r\n\r\n")), T(C("GET / HTTP/1.1\r\nHost: a.com\r\nHost: «A.com»\r\n\r\n")),
        T(C("CONNECT «a.b:443» HTTP/1.1\r\nHost: a.b:443\r\n\r\n")), T(C("GET http://«a.com.»/ HTTP/1.1\r\nHost: a.com\r\n\r\n")), T(C("GET «http://a.com» HTTP/1.0\r\n\r\n")),
        T(C("GET / HTTP/1.1\r\nHost: a\r\nAuthorization: «Basic dTpwYQ==»\r\n\r\n")), T(C("GET / HTTP/1.1\r\nHost: a\r\nAuthorization: «Basic  OnA= »\r\n\r\n")),
        T(C("GET / HTTP/1.1\r\nHost: a\r\nAuthorization: «Digest r=\"x\", username=\"a\\\"b\", q=\"y\"»\r\n\r\n")), T(C("GET / HTTP/1.1\r\nHost: a\r\nAuthorization: «Digest username=\"\\\"\\\"\"»\r\n\r\n")),
        T(C("GET / HTTP/1.1\r\nHost: a\r\nAuthorization: «Digest username = \"\"»\r\n\r\n")), T(C("GET / HTTP/1.1\r\nHost: a\r\nAuthorization: «Bearer  ab.c»\r\n\r\n")),
        T(C("GET / HTTP/1.1\r\nHost: a\r\nAuthorization: «bearer t»\r\nauthorization: Basic dTpw\r\n\r\n")), T(C("GET «http:/a:b@c?d:e@f#g» HTTP/1.1\r\nHost: c\r\n\r\n"))],
    "C15": [
        T(C("GET / HTTP/1.1\r\n«Ab: c d\r\n e\r\nF : g\r\nAB:h»\r\n\r\n")), T(C("GET / HTTP/1.1\n«Ab: c\n\td\nF:\nab: g »\n\n")), T(C("GET / HTTP/1.1\r\n«A:b\r\n: x\r\nnocolon\r\n y»\r\n\r\n")),
        T(C("GET / HTTP/1.1\r\n«Content-Length: 1\r\ncontent-length: 1\r\nX: 1\r\nx: 2»\r\n\r\na")),
        T(GET, S("HTTP/1.1 200 OK\r\n«Ab: c d\r\n e\r\nF : g\r\nAB:h»\r\n\r\n")), T(GET, S("HTTP/1.1 200 OK\n«Ab: c\n\td\nF:\nab: g »\n\n")), T(GET, S("HTTP/1.1 200 OK\r\n«A:b\r\n: x\r\nnocolon\r\n y\r\n»\r\n\r\n")),
        T(C("POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n1\r\na\r\n0\r\n«Tr: a\r\n b\r\nTR:c»\r\n\r\n")), T(GET, S("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\nTr: 1\r\n\r\n1\r\na\r\n0\r\n«Tr: a\r\n b\r\nTR:c»\r\n\r\n"))],
    "C11": [
        T(C("POST / HTTP/1.1\r\nHost: a\r\n«Content-Length: 3»\r\n\r\nabcGET /2 HTTP/1.1\r\n\r\n")), T(C("POST / HTTP/1.1\r\nHost: a\r\nContent-Length: 3\r\n«Content-Length: 3»\r\n\r\nabcGET /2 HTTP/1.1\r\n\r\n")),
        T(C("PUT / HTTP/1.1\r\nHost: a\r\n«Transfer-Encoding: chunked»\r\n\r\n3\r\nabc\r\n0\r\n\r\nGET /2 HTTP/1.1\r\n\r\n")), T(C("POST / HTTP/1.0\r\nHost: a\r\n«Transfer-Encoding: chunked»\r\n\r\n3\r\nabc\r\n0\r\n\r\n")),
        T(C("POST / HTTP/1.1\r\nContent-Length: 5\r\n«Transfer-Encoding: gzip, chunked»\r\n\r\n3\r\nabc\r\n0\r\n\r\nGET /2 HTTP/1.1\r\n\r\n")),
        T(C("POST / HTTP/1.1\r\nTransfer-Encoding: identity\r\n«Content-Length : 03»\r\n\r\nabcGET /2 HTTP/1.1\r\n\r\n")), T(C("GET / HTTP/1.1\r\n«Content-Length: 2»\r\n\r\nabGET /2 HTTP/1.1\r\n\r\n")),
        T(C("POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n«1a ;x=1»\r\nabcdefghijklmnopqrstuvwxyz\r\n0\r\n\r\nGET /2 HTTP/1.1\r\n\r\n")), T(C("«PUT / HTTP/1.1\r\n»\r\nabc")),
        T(C("POST / HTTP/1.1\r\nHost: a\r\nExpect: «100-continue»\r\nContent-Length: 3\r\n\r\n"), S("HTTP/1.1 417 No\r\nContent-Length: 0\r\n\r\n"), C("abcGET /2 HTTP/1.1\r\n\r\n")),
        T(C("POST / HTTP/1.1\r\nHost: a\r\nExpect: 100-continue\r\nContent-Length: 3\r\n\r\n"), S("HTTP/1.1 «417» No\r\nContent-Length: 0\r\n\r\n"), C("GET /2 HTTP/1.1\r\n\r\n"))],
    "C12": [
        T(GET, S("HTTP/1.1 200 OK\r\n«Content-Length: 3»\r\n\r\nabcHTTP/1.1 200 OK\r\n\r\n")), T(GET, S("HTTP/1.1 200 OK\r\nContent-Length: 3\r\n«Content-Length: 3»\r\n\r\nabcHTTP/1.1 200 OK\r\n\r\n")),
        T(GET, S("HTTP/1.1 200 OK\r\n«Transfer-Encoding: chunked»\r\n\r\n3\r\nabc\r\n0\r\n\r\n")), T(GET, S("HTTP/1.1 200 OK\r\nContent-Length: 4\r\n«Transfer-Encoding: gzip, chunked»\r\n\r\n3\r\nabc\r\n0\r\n\r\n")),
        T(GET, S("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n«1a ;x=1»\r\nabcdefghijklmnopqrstuvwxyz\r\n0\r\n\r\n")), T(GET, S("HTTP/1.1 «204» No\r\nContent-Length: 3\r\n\r\nabc")),
        T(GET, S("HTTP/1.1 «304» No\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\n\r\n")), T(GET, S("HTTP/1.1 «100» Continue\r\nX: y\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok")),
        T(GET, S("HTTP/1.1 100 Continue\r\n«Content-Length: 0»\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok")),
        T(GET, S("HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 100 Continue\r\n«Content-Length: 0»\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok")),
        T(GET, S("HTTP/1.1 100 Continue\r\nX: 1\r\n\r\nHTTP/1.1 «200» OK\r\nX: 2\r\nContent-Length: 2\r\n\r\nok")), T(C("«HEAD» /1 HTTP/1.1\r\nHost: a\r\n\r\n"), END),
        T(GET, S("HTTP/1.1 206 P\r\nContent-Type: «multipart/byteranges; boundary=x»\r\n\r\n--x\r\n")), T(GET, S("HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nab«HTTP/1.1 200 OK\r\nX: y\r\n\r\n»")),
        T(GET, S("HTTP/1.1 101 Switch\r\n«Upgrade: h2c»\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\nok")), T(C("CONNECT a:1 HTTP/1.1\r\n\r\n"), S("HTTP/1.1 «404» No\r\nContent-Length: 2\r\n\r\nok"))],
    "C04": [
        T(C("POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n«3\r\nabc\r\n2;a\r\nde\r\n0\r\nT: 1\r\n\r\n»")), T(GET, S("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n«3\r\nabc\r\n2;a\r\nde\r\n0\r\nT: 1\r\n\r\n»")),
        T(C("POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n«00A \nabcdefghij\n 1\nx\n0\n\n»")), T(GET, S("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n«00A \nabcdefghij\n 1\nx\n0\n\n»")),
        T(C("POST / HTTP/1.1\r\nContent-Length: 3\r\n\r\n«abc»GET /2 HTTP/1.1\r\n\r\n")), T(GET, S("HTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\n«abc»"), S("x"))],
    "C17": [
        T(C("GET «/a%2fB/../c%5cd//%u002fe» HTTP/1.1\r\nHost: a\r\n\r\n"), personality="IDS"), T(C("GET «/a\\b%00c/./%c3%a9%ef%bc%8f» HTTP/1.1\r\nHost: a\r\n\r\n"), personality="IIS_5_1"),
        T(C("GET «/%e2%80%a6/%uff0fA%zz%1» HTTP/1.1\r\nHost: a\r\n\r\n"), bestfit=True, u_decode=True, inv_handling="PROCESS"), T(C("GET «/a%%2f+b%u12» HTTP/1.1\r\nHost: a\r\n\r\n"), inv_handling="REMOVE", sep_decode=True, plusspace=True),
        T(C("GET «/%c0%af%25%32%66/..» HTTP/1.1\r\nHost: a\r\n\r\n"), double_decode_path=True, personality="APACHE_2"), T(C("GET «a/../../b/.» HTTP/1.1\r\nHost: a\r\n\r\n")),
        T(C("GET «/a%2F..%5c..//b» HTTP/1.1\r\nHost: a\r\n\r\n"), sep_compress=True, sep_decode=True, backslash=True, lowercase=True), T(C("GET «/x?q=%41%zz+%u0041#f%20» HTTP/1.1\r\nHost: a\r\n\r\n"), include_all=True, double_decode_query=True),
        T(C("GET «/a\x00b%00c» HTTP/1.1\r\nHost: a\r\n\r\n"), nul_enc_term=True), T(C("GET «/a%00b\x01c» HTTP/1.1\r\nHost: a\r\n\r\n"), nul_raw_term=True, nul_enc_unwanted=400, nul_raw_unwanted=404, ctl_unwanted=400)],
    "C29": [
        T(C("« GET /a%2f%zz/b» HTTP/1.1\r\nHost: a\r\n\r\n"), personality="APACHE_2"), T(C("GET «/a%u0041%01\x02/b%zz» HTTP/1.1\r\nHost: a\r\n\r\n"), personality="IIS_6_0"), T(C("GET «/%zz%u00zz\x1f/%1» HTTP/1.1\r\nHost: a\r\n\r\n"), personality="IIS_7_5"),
        T(C("GET «/a%00b%2fc%5cd» HTTP/1.1\r\nHost: a\r\n\r\n"), nul_enc_unwanted=400, sep_unwanted=404, backslash=True, sep_decode=True), T(C("GET «/a\x00b%00c%u0000d» HTTP/1.1\r\nHost: a\r\n\r\n"), nul_raw_unwanted=404, nul_enc_unwanted=400, u_decode=True),
        T(C("GET «/%uff0f%u0041/%u00zz» HTTP/1.1\r\nHost: a\r\n\r\n"), u_decode=True, u_unwanted=404, inv_unwanted=400, inv_handling="PROCESS"), T(C("GET «/%uzz41%zz%» HTTP/1.1\r\nHost: a\r\n\r\n"), u_decode=True, inv_unwanted=404, inv_handling="REMOVE"),
        T(C("GET «/%ff%c3%a9/\xc3x%zz» HTTP/1.1\r\nHost: a\r\n\r\n"), utf8_unwanted=404, inv_unwanted=400), T(C("« \tGET /a%00b» HTTP/1.1\r\nHost: a\r\n\r\n"), lead_ws_unwanted=404, nul_enc_term=True, nul_enc_unwanted=400),
        T(C("GET «/a\x00b\x01» HTTP/1.1\r\nHost: a\r\n\r\n"), nul_raw_term=True, nul_raw_unwanted=400, ctl_unwanted=404)],
    "C16": [
        T(C("GET /?«a=1&b=%41+%u0041&&c&=d» HTTP/1.1\r\nHost: a\r\n\r\n"), parse_urlencoded=True), T(C("GET /?«%zz=%1&%00=%u12» HTTP/1.1\r\nHost: a\r\n\r\n"), parse_urlencoded=True, u_decode=True, inv_handling="PROCESS"),
        T(C("GET /?«a%=b%%41;c» HTTP/1.1\r\nHost: a\r\n\r\n"), parse_urlencoded=True, inv_handling="REMOVE"), T(C("GET /?«%uff21=%u0100&%uFFFF» HTTP/1.1\r\nHost: a\r\n\r\n"), parse_urlencoded=True, u_decode=True),
        T(C("POST / HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 13\r\n\r\n«a=1&b=%41+c&»"), parse_urlencoded=True),
        T(C("POST / HTTP/1.1\r\n«Content-Type: application/x-www-form-urlencoded»\r\nContent-Length: 3\r\n\r\na=1"), parse_urlencoded=True)],
    "C23": [
        T(C("«GET /a»\r\n"), S("body here")), T(C("«GET /a\r\n»\r\n"), C("x"), S("HTTP/1.1 200 OK\r\n\r\n")), T(C("«GET /a\r\nHost: b\r\n\r\n»"), END), T(C("«GET  / \n»"), C("GET /2 HTTP/1.1\r\n\r\n"), S("x")),
        T(C("GET /a HTTP/0.9\r\n«\r\n»"), S("HTTP/1.1 200 OK\r\n\r\n")), T(C("«GET\r\n»"), S("x")), T(C("GET /a\r\n"), C("«                \n»"), S("x")), T(GET, END, C("«GET /b\r\n»"), S("HTTP/1.1 200 OK\r\n\r\nx"))],
    "C14": [
        T(GET, S(both("HTTP/1.1 200 OK\r\nContent-Encoding: «gzip»\r\nContent-Length: %d\r\n\r\n" % len(GZ), GZ))), T(GET, S(both("HTTP/1.1 200 OK\r\nContent-Encoding: «deflate»\r\nContent-Length: %d\r\n\r\n" % len(DF), DF))),
        T(GET, S(both("HTTP/1.1 200 OK\r\nContent-Encoding: «x-gzip, deflate»\r\nContent-Length: 37\r\n\r\n", _zl.compress(GZ)))),
        T(GET, S(both("HTTP/1.1 200 OK\r\n«Content-Encoding: inflate,gzip»\r\n\r\n", GZ)), ("close", b"")),
        T(C(both("POST / HTTP/1.1\r\nContent-Encoding: «gzip»\r\nContent-Length: %d\r\n\r\n" % len(GZ), GZ)), req_decomp=True)],
    "C07": [
        T(C("CONNECT a:443 HTTP/1.1\r\nHost: a\r\n\r\n"), S("HTTP/1.1 «200» OK\r\n\r\n"), C("GET / HTTP/1.1\r\n\r\n"), S("x")), T(C("CONNECT a:443 HTTP/1.1\r\n\r\n"), S("HTTP/1.1 200 OK\r\n\r\n"), C("«GET / HTTP/1.1\r\n»\r\n"), END),
        T(C("«CONNECT» a:443 HTTP/1.1\r\n\r\n"), S("HTTP/1.1 200 OK\r\n\r\n"), C("\x16\x03"), S("\x16\x03")), T(C("GET / HTTP/1.1\r\nUpgrade: h2c\r\nHost: a\r\n\r\n"), S("HTTP/1.1 «101» Sw\r\nUpgrade: h2c\r\n\r\n"), S("PRI"), C("PRI")),
        T(C("GET / HTTP/1.1\r\n«Upgrade: h2c\r\nConnection: Upgrade, HTTP2-Settings»\r\n\r\n"), S("HTTP/1.1 101 Sw\r\nUpgrade: h2c\r\n\r\n"), S("x"), C("y")), T(C("GET / HTTP/1.1\r\n\r\n"), S("HTTP/1.1 101 Sw\r\n«Upgrade: h2c»\r\n\r\n"), S("HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"), C("GET /2 HTTP/1.1\r\n\r\n"))],
    "C22": [
        T(C("GET / HTTP/1.1\r\n«A: b\r\n c\r\n»\r\n")), T(GET, S("HTTP/1.1 200 OK\r\n«A: b\r\n c\r\n»\r\n")), T(C("POST / HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n«A: b\r\n»\r\n")), T(GET, S("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n«A: b\r\n»\r\n"))],
    "C19": [
        T(C("GET /a HTTP/1.1\r\n«Host: a\r\nX: y»\r\n\r\n"), END), T(C("GET «http://b:80/» HTTP/1.1\r\nHost: b:80\r\n\r\n"), END), T(GET, S("«HTTP/1.1 200 OK»\r\nContent-Length: 2\r\n\r\nok")), T(GET, S("HTTP/1.1 200 OK\r\n«Content-Length: 2\r\nX: y»\r\n\r\nok")),
        T(C("POST / HTTP/1.1\r\nHost: a\r\n«Transfer-Encoding: chunked»\r\n\r\n1\r\na\r\n0\r\n\r\n"), END), T(GET, S("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n«2\r\nok\r\n0\r\n»\r\n")), T(C("«GET /a HTTP/1.1\r\n»Host: a\r\n\r\n"), END)],
}
NEAR["C02"] = [T(C("GET /1 HTTP/1.1\r\n\r\n«GET /2 HTTP/1.1\r\n\r\n»"), S("HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"), END), T(GET, S("HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n«HTTP/1.1 200 OK\r\nX: y\r\n\r\n»"))]


def edits(part):
    """all single edits"""
    seen = {part}

    def give(x):
        if x not in seen:
            seen.add(x)
            return True
        return False
    if give(part + b""):
        yield part
    for i in range(len(part) + 1):
        for a in ALPHABET:
            x = part[:i] + bytes([a]) + part[i:]
            if give(x):
                yield x
        if i == len(part):
            continue
        x = part[:i] + part[i + 1:]
        if give(x):
            yield x
        x = part[:i] + part[i:i + 1] * 2 + part[i + 1:]
        if give(x):
            yield x
        x = part[:i] + part[i:i + 1].swapcase() + part[i + 1:]
        if give(x):
            yield x
        for a in ALPHABET:
            x = part[:i] + bytes([a]) + part[i + 1:]
            if give(x):
                yield x
        if i + 1 < len(part):
            x = part[:i] + part[i + 1:i + 2] + part[i:i + 1] + part[i + 2:]
            if give(x):
                yield x
    import re
    for m in re.finditer(rb"[0-9]+", part):
        for n in NUMS:
            x = part[:m.start()] + b"%d" % n + part[m.end():]
            if give(x):
                yield x


def parts(t):
    """index of the marked call, text before, marked part, text after"""
    for i, (op, x) in enumerate(t[0]):
        if L in x:
            a, b = x.index(L), x.index(R)
            return i, x[:a], x[a + 2:b], x[b + 2:]
    raise ValueError(t)


def build(t, part, cut=None):
    i, a, _, b = parts(t)
    st = [{"op": "open"}]
    for j, (op, x) in enumerate(t[0]):
        d = a + part + b if j == i else x
        if op == "close":
            st.append({"op": "close"})
        elif cut is not None and j == i and 0 < cut < len(d):
            st += [{"op": op, "d": list(d[:cut])}, {"op": op, "d": list(d[cut:])}]
        else:
            st.append({"op": op, "d": list(d)})
    st.append({"op": "close"})
    return {"cfg": dict(t[1], snap=3), "steps": st, "verdicts": [], "meta": {}}


def near(r, pid, n):
    """n scenarios: a sample of all single edits (each template gets its share), some cut in two, or double edits"""
    ts = NEAR.get(pid, [])
    for k, t in enumerate(ts):
        _, a, part, b = parts(t)
        es = list(edits(part))
        want = n // len(ts) + 1
        pick = es if len(es) <= want else r.sample(es, want)
        for e in pick:
            yield build(t, e, len(a) + r.randint(0, len(e)) if r.random() < 0.15 else None)
        for _ in range(max(want - len(pick), want // 8)):
            e = part
            for _ in range(2):
                i = r.randrange(len(e) + 1)
                x = r.choice(ALPHABET)
                e = r.choice([e[:i] + bytes([x]) + e[i:], e[:i] + bytes([x]) + e[i + 1:], e[:i] + e[i + 1:], e[:i] + bytes([x, x]) + e[i:]])
            yield build(t, e, len(a) + r.randint(0, len(e)) if r.random() < 0.15 else None)


# -- actions at every position -------------------------------------------------
PIPE = ("POST /1 HTTP/1.1\r\nHost: a\r\nTransfer-Encoding: chunked\r\n\r\n3\r\nabc\r\n0\r\nT: u\r\n\r\n", "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n2\r\nok\r\n0\r\nV: w\r\n\r\n",
        "PUT /2 HTTP/1.1\r\nContent-Length: 4\r\n\r\nbody", "HTTP/1.1 100 Continue\r\n\r\nHTTP/1.1 200 OK\r\nContent-Length: 3\r\n\r\nend")
CONN = ("CONNECT a:1 HTTP/1.1\r\n\r\n", "HTTP/1.1 200 OK\r\n\r\n", "GET / HTTP/1.1\r\n\r\n", "HTTP/1.1 200 OK\r\nX: y\r\n\r\nto the end")
OLD = ("GET /old\r\n", "all body", "more", "and more")
ACTIONS = [{"op": "rm", "n": 0}, {"op": "rm", "n": 1}, {"op": "cg", "n": 1}, {"op": "cg", "n": 3}, {"op": "sg", "n": 1}, {"op": "sg", "n": 3}, {"op": "rclose"}, {"op": "close"}, {"op": "open"}, {"op": "c", "d": []}, {"op": "s", "d": []},
           {"op": "s", "d": list(b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n")}, {"op": "c", "d": list(b"GET /x HTTP/1.1\r\n\r\n")}]
CFGS = [{}, {"max_tx": 1}, {"auto_destroy": True}, {"flush": True}, {"max_tx": 2, "auto_destroy": True}, {"txhook": True, "flush": True}, {"field_limit": 12}]
USES = {"C10": ({"rm"}, [1, 2, 4, 0]), "C13": ({"cg", "sg"}, [0, 2, 5]), "C18": ({"rclose", "close"}, [0, 3, 5]), "C05": ({"open", "c", "s", "close", "rclose", "cg", "sg"}, [0, 6]), "C08": ({"c", "s", "cg", "sg", "rclose"}, [0, 6]),
        "C21": ({"rm", "cg", "sg", "rclose", "close", "c", "s", "open"}, [0, 1, 2, 4, 5]), "C01": ({"rm", "rclose", "close", "s", "c", "cg", "sg"}, [0, 2, 5]), "C02": ({"s", "c", "rclose"}, [0, 2]), "C25": ({"rm", "cg", "sg", "close"}, [0, 1, 2]),
        "C22": ({"rm", "close", "cg", "sg"}, [0, 2]), "C09": ({"c", "s"}, [6])}


def acted(conv, action, pos, cfg, rest=True):
    """the conversation byte position pos of which is preceded by the action"""
    st, at, done = [{"op": "open"}], 0, False
    for i, m in enumerate(conv):
        op, d = "cs"[i % 2], m.encode("latin1")
        if not done and at <= pos < at + len(d):
            k = pos - at
            if k:
                st.append({"op": op, "d": list(d[:k])})
            st += action
            done = True
            if not rest:
                break
            st.append({"op": op, "d": list(d[k:])})
        else:
            st.append({"op": op, "d": list(d)})
        at += len(d)
    st.append({"op": "close"})
    return {"cfg": dict(cfg, snap=3), "steps": st, "verdicts": [], "meta": {}}


SDATA = [b"HTTP/1.1 200 OK\r\n\r\n", b"HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n", b"HTTP/1.1 100 Continue\r\n\r\n", b"x"]
CDATA = [b"GET /x HTTP/1.1\r\n\r\n", b"POST /x HTTP/1.1\r\nContent-Length: 9\r\n\r\n", b"GET /x", b"x\n"]


def robbed(r, n):
    """the transaction in progress is taken away, and the other side speaks before the first goes on"""
    allc = []
    for conv in (PIPE, CONN, OLD):
        bound = [sum(map(len, conv[:i + 1])) for i in range(4)]
        for pos in range(sum(map(len, conv))):
            i = sum(1 for x in bound if x <= pos)
            for k in sorted({0, i // 2}):
                for d in (SDATA if i % 2 == 0 else CDATA):
                    for c in ({"max_tx": 1}, {"max_tx": 2}, {}):
                        allc.append((conv, [{"op": "rm", "n": k}, {"op": "sc"[i % 2], "d": list(d)}], pos, c))
    for x in (allc if len(allc) <= n else r.sample(allc, n)):
        yield acted(*x)


# -- stages left out, said twice, exchanged, interrupted by any other, at every position
def hd(op, name, val):
    return {"op": op, "d": list((name + val).encode()), "n": len(name)}


def at(op, d="", n=0):
    return {"op": op, "d": list(d.encode("latin1")), "n": n}


TOLD = [
    [at("qs"), at("ql", "POST /a?b=c HTTP/1.1"), at("qL"), hd("qh", "Host", "h"), hd("qh", "Content-Length", "3"), at("qp", n=1), at("qH"), at("qp", n=2), at("qb", "abc"), at("qc"),
     at("ws"), at("wl", "HTTP/1.1 200 OK"), at("wL"), hd("wh", "X", "y"), at("wp", n=1), at("wH"), at("wp", n=2), at("wb", "ok"), at("wc"),
     at("qs"), at("ql", "GET http://u:p@h:8/x HTTP/1.0"), at("qL"), hd("qh", "Host", "h:8"), hd("qh", "Authorization", 'Digest username="me"'), at("qH"), at("qc"), at("ws"), at("wl", "HTTP/1.0 404 No"), at("wL"), at("wH"), at("wc")],
    [at("qs"), at("ql", "PUT / HTTP/1.1"), at("qL"), hd("qh", "Transfer-Encoding", "chunked"), hd("qh", "Authorization", "Basic dTpw"), at("qp", n=1), at("qH"), at("qs"), at("ws"), at("wl", "HTTP/1.1 100 Go"), at("wL"), at("wH"), at("qp", n=2), at("qb", "a"), at("qb", "b"),
     at("qp", n=3), hd("qh", "T", "u"), at("qH"), at("wl", "HTTP/1.1 201 OK"), at("wL"), at("wH"), at("wb", "x"), at("qc"), at("we"), at("wc")],
    [at("qs"), at("ql", "GET /1 HTTP/1.1"), at("qL"), at("qH"), at("qc"), at("c", "GET /2 HTTP/1.1\r\nHost: a\r\n\r\n"), at("qs"), at("ql", "CONNECT h:1 HTTP/1.1"), at("qL"), at("qH"), at("qc"), at("s", "HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\nx"),
     at("ws"), at("wl", "HTTP/1.1 204 No"), at("wL"), at("wH"), at("wc"), at("ws"), at("wl", "HTTP/1.1 200 OK"), at("wL"), at("wH"), at("wc")]]
SAID = [at(x) for x in "qs qL qH qe qc ws wL wH we wc".split()] + [at("ql", "GET / HTTP/1.1"), at("ql", "GET /old"), at("wl", "HTTP/1.1 304 X"), at("wl", "x"), at("qb", "data"), at("wb", "data"), at("qp", n=0), at("wp", n=3), at("qp", n=3),
        hd("qh", "Content-Type", "a/b"), hd("qh", "Authorization", "Bearer t"), hd("wh", "Y", "z"), {"op": "rm", "n": 0}, {"op": "rm", "n": 1}, at("c", "GET /x HTTP/1.1\r\n\r\n"), at("s", "HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"), {"op": "close"}, {"op": "rclose"}]
SCFG = [{}, {"max_tx": 1}, {"max_tx": 2}, {"auto_destroy": True}, {"max_tx": 1, "auto_destroy": True}, {"txhook": True, "two": True}, {"flush": True}]


def said(r, n):
    allc = []
    for st in TOLD:
        for i in range(len(st)):
            for k, v in [("drop", 0), ("swap", 0), ("cut", 0)] + [("ins", x) for x in range(len(SAID))] + [("far", x) for x in range(len(st))]:
                for c in range(len(SCFG)):
                    allc.append((st, i, k, v, c))
    for st, i, k, v, c in (allc if len(allc) <= n else r.sample(allc, n)):
        x = st[:i] + st[i + 1:] if k == "drop" else st[:i] + [st[i + 1], st[i]] + st[i + 2:] if k == "swap" and i + 1 < len(st) else st[:i] if k == "cut" \
            else st[:i] + [SAID[v]] + st[i:] if k == "ins" else [y for j, y in enumerate(st[:v]) if j != i] + [st[i]] + [y for j, y in enumerate(st) if j >= v and j != i]
        if r.random() < 0.2:
            x = list(x)
            x.insert(r.randint(0, len(x)), r.choice(SAID))
        yield {"cfg": dict(SCFG[c], snap=3), "steps": [{"op": "open"}] + [dict(y) for y in x] + [{"op": "close"}], "verdicts": [], "meta": {}}


def actions(r, pid, n):
    if pid == "C28":
        yield from said(r, n)
    if pid not in USES:
        return
    if pid in ("C10", "C21"):
        yield from robbed(r, n * 3 if pid == "C21" else n)
    ops, cfgs = USES[pid]
    allc = []
    for conv in (PIPE, CONN, OLD):
        for pos in range(sum(map(len, conv))):
            for a in ACTIONS:
                if a["op"] in ops:
                    for c in cfgs:
                        allc.append((conv, [a], pos, CFGS[c]))
    for x in (allc if len(allc) <= n else r.sample(allc, n)):
        if r.random() < 0.2:
            x = (x[0], x[1] + [r.choice(ACTIONS)], x[2], x[3])
        s = acted(*x)
        if r.random() < 0.15:
            s["steps"].insert(r.randint(1, len(s["steps"])), dict(r.choice(ACTIONS)))
        yield s
