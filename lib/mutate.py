"""Small random changes to a scenario.  The specification is total, so what a
changed scenario must do is known whatever the change."""
import re

NUMS = [0, 1, 2, 3, 7, 9, 10, 15, 16, 17, 99, 100, 101, 102, 199, 200, 204, 206, 255, 256, 299, 300, 304, 400, 407, 417, 499, 500, 999, 1000, 4095, 4096, 65535, 65536]
WORDS = [b"GET", b"POST", b"HEAD", b"CONNECT", b"OPTIONS", b"PUT", b"HTTP/1.1", b"HTTP/1.0", b"HTTP/0.9", b"Content-Length", b"Transfer-Encoding", b"chunked", b"gzip", b"deflate",
         b"Host", b"Expect", b"100-continue", b"Upgrade", b"h2c", b"Content-Encoding", b"Content-Type", b"Authorization", b"Connection", b"close", b"identity", b"100", b"200", b"101", b"204", b"304"]
BITS = [b"\r\n", b"\n", b"\r", b":", b" ", b"\t", b"\x00", b"\xff", b"%", b"%u", b"+", b"=", b"&", b"/", b"?", b"#", b";", b",", b"@", b"\\", b".", b"..", b"\x0b", b"\x0c", b"\x7f", b"\x80", b"0", b"\r\n\r\n", b"\r\n ", b": ", b"\"", b"[", b"]"]


def number(r):
    k = r.random()
    if k < 0.4:
        return r.choice(NUMS)
    if k < 0.8:
        return r.randint(100, 599)
    if k < 0.95:
        return r.randint(0, 70000)
    return r.choice([2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 10 ** 25]) + r.randint(-1, 1)


def mut_bytes(r, d):
    k = r.randint(0, 11)
    if not d:
        return d
    i = r.randrange(len(d))
    j = min(len(d), i + r.randint(1, 6))
    if k == 0:
        return d[:i] + bytes([r.randrange(256)]) + d[i + 1:]
    if k == 1:
        return d[:i] + d[j:]
    if k == 2:
        return d[:i] + r.choice(BITS) + d[i:]
    if k == 3:
        return d[:i] + r.choice(BITS) + d[i + 1:]
    if k == 4:
        return d[:j] + d[i:j] + d[j:]
    if k == 5:
        return d[:i] + d[i:j].swapcase() + d[j:]
    if k in (6, 7):
        m = list(re.finditer(rb"[0-9]+", d))
        if m:
            x = r.choice(m)
            return d[:x.start()] + b"%d" % max(0, number(r)) + d[x.end():]
    if k == 8:
        m = list(re.finditer(rb"[A-Za-z][A-Za-z0-9/.-]+", d))
        if m:
            x = r.choice(m)
            return d[:x.start()] + r.choice(WORDS) + d[x.end():]
    if k == 9:   # drop or repeat a line
        ls = d.split(b"\n")
        if len(ls) > 1:
            x = r.randrange(len(ls) - 1)
            return b"\n".join(ls[:x] + ls[x + 1:] if r.random() < 0.5 else ls[:x + 1] + ls[x:])
    if k == 10:   # swap two lines
        ls = d.split(b"\n")
        if len(ls) > 2:
            x = r.randrange(len(ls) - 2)
            ls[x], ls[x + 1] = ls[x + 1], ls[x]
            return b"\n".join(ls)
    if k == 11:   # longer
        return d[:i] + d[i:i + 1] * r.choice([2, 10, 40, 70]) + d[i:]
    return d[:i] + bytes([r.choice(b" \r\n\t:;0a")]) + d[i + 1:]


def mutate(r, s):
    """a copy of the scenario with one to three changes"""
    st = [dict(x) for x in s["steps"]]
    for _ in range(r.choice([1, 1, 2, 3])):
        k = r.random()
        data = [i for i, x in enumerate(st) if x.get("d")]
        if k < 0.7 and data:
            i = r.choice(data)
            st[i]["d"] = list(mut_bytes(r, bytes(st[i]["d"])))
        elif k < 0.78 and data:     # cut a piece
            i = r.choice(data)
            d = st[i]["d"]
            if len(d) > 1:
                c = r.randrange(1, len(d))
                st[i:i + 1] = [dict(st[i], d=d[:c]), dict(st[i], d=d[c:])]
        elif k < 0.84 and data:     # join two pieces
            i = r.choice(data)
            if i + 1 < len(st) and st[i + 1].get("op") == st[i]["op"] and st[i + 1].get("d"):
                st[i:i + 2] = [dict(st[i], d=st[i]["d"] + st[i + 1]["d"])]
        elif k < 0.9 and len(st) > 2:
            i = r.randrange(1, len(st) - 1)
            if r.random() < 0.5:
                del st[i]
            else:
                st[i], st[i + 1] = st[i + 1], st[i]
        else:
            x = r.choice([{"op": "cg", "n": r.randint(1, 30)}, {"op": "sg", "n": r.randint(1, 30)}, {"op": "rclose"}, {"op": "close"}, {"op": "rm", "n": r.randint(0, 3)}, {"op": "cr"}, {"op": "sr"}])
            st.insert(r.randint(1, len(st)), x)
    return dict(s, steps=st, meta={})
