------------------------------ MODULE Parsers ------------------------------
(* First lines, numbers, host names, URIs, credentials. *)
EXTENDS Bytes, Decode

Methods == {"HEAD", "GET", "PUT", "POST", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH",
  "PROPFIND", "PROPPATCH", "MKCOL", "COPY", "MOVE", "LOCK", "UNLOCK", "VERSION-CONTROL", "CHECKOUT",
  "UNCHECKOUT", "CHECKIN", "UPDATE", "LABEL", "REPORT", "MKWORKSPACE", "MKACTIVITY",
  "BASELINE-CONTROL", "MERGE", "INVALID"}
MethodOf == [b \in {B(m) : m \in Methods} |-> CHOOSE m \in Methods : B(m) = b]
MethodBytes == DOMAIN MethodOf
(* the name of the method, with _ for - ; UNKNOWN *)
Method(b) == IF b \in MethodBytes
             THEN LET m == MethodOf[b] IN
                  IF m = "VERSION-CONTROL" THEN "VERSION_CONTROL" ELSE IF m = "BASELINE-CONTROL" THEN "BASELINE_CONTROL" ELSE m
             ELSE "UNKNOWN"

Log(l, c) == [l |-> l, c |-> c]
Warn(c) == <<Log("WARNING", c)>>
Error(c) == <<Log("ERROR", c)>>
Info(c) == <<Log("INFO", c)>>

------------------------------------------------------------------------------
(* HTTP versions: [v, logs] *)
ParseProtocol(d) ==
  LET a == Skip(d, 1, IsAsciiWs)
      b == Skip(d, a + 4, IsAsciiWs)
      z == Skip(d, b + 1, LAMBDA c : IsAsciiWs(c) \/ c = 48)
      v == IF StartsAt(d, z, B(".9")) THEN [v |-> "V0_9", n |-> 2]
           ELSE IF StartsAt(d, z, B("1.0")) THEN [v |-> "V1_0", n |-> 3]
           ELSE IF StartsAt(d, z, B("1.1")) THEN [v |-> "V1_1", n |-> 3]
           ELSE [v |-> "INVALID", n |-> 0]
      extra == b > a + 4 \/ z > b + 1
  IN IF ~StartsNoCase(d, a, B("http")) \/ b > Len(d) \/ d[b] # SLASH \/ v.n = 0
        \/ Skip(d, z + v.n, IsAsciiWs) <= Len(d)
     THEN [v |-> "INVALID", logs |-> <<>>]
     ELSE [v |-> v.v, logs |-> IF extra THEN Warn("PROTOCOL_CONTAINS_EXTRA_DATA") ELSE <<>>]
ProtoRank == [ERROR |-> 0, INVALID |-> 1, UNKNOWN |-> 2, V0_9 |-> 3, V1_0 |-> 4, V1_1 |-> 5]

(* blanks, junk, digits, blanks, junk: [ok, digits, lead, trail] *)
AsciiDigits(d) ==
  LET a == Skip(d, 1, IsBlank)
      b == Skip(d, a, LAMBDA c : ~IsDigit(c))
      e == Skip(d, b, IsDigit)
      t == Skip(d, e, IsBlank)
  IN [ok |-> b <= Len(d), digits |-> SubSeq(d, b, e - 1), lead |-> b > a, trail |-> t <= Len(d)]
(* [n, logs]: n = NONE if there is no number or it does not fit *)
ContentLength(d) ==
  LET x == AsciiDigits(d) IN
  IF ~x.ok THEN [n |-> NONE, logs |-> <<>>]
  ELSE [n |-> DecU64(x.digits),
        logs |-> (IF x.lead THEN Warn("CONTENT_LENGTH_EXTRA_DATA_START") ELSE <<>>)
                 \o (IF x.trail THEN Warn("CONTENT_LENGTH_EXTRA_DATA_END") ELSE <<>>)]
(* status number, -1 if invalid *)
ParseStatus(d) ==
  LET x == AsciiDigits(d)
      n == IF x.ok /\ ~x.lead /\ ~x.trail THEN DecMax(x.digits, 999) ELSE NONE
  IN IF n >= 100 THEN n ELSE -1

IsChunkCtl(c) == c = 13 \/ c = 10 \/ c = 32 \/ c = 9 \/ c = 11 \/ c = 12
(* [k: "ok"/"none"/"err", n, ext] *)
ChunkLength(d) ==
  LET a == Skip(d, Skip(d, 1, IsChunkCtl), IsBlank)
      e == Skip(d, a, IsHex)
      t == Skip(d, e, IsBlank)
      hs == StripZeros([i \in 1..(e - a) |-> HexVal(d[a + i - 1])])
      Res(k, n, x) == [k |-> k, n |-> n, ext |-> x]
  IN IF e = a THEN IF t > Len(d) THEN Res("none", 0, FALSE) ELSE Res("err", 0, FALSE)
     ELSE IF Len(hs) > 16 THEN Res("err", 0, FALSE)
     ELSE IF Len(hs) > 8 \/ (Len(hs) = 8 /\ hs[1] >= 8) THEN Res("none", 0, FALSE)
     ELSE Res("ok", SmallDec(hs, 1, 16, 0), FindB(d, t, SEMI) # 0)
IsChunkCtlLine(d) == \A i \in 1..Len(d) : IsChunkCtl(d[i])
(* what an incomplete chunk-length line may look like *)
MaybeChunkLength(d) == LET a == Skip(d, 1, IsChunkCtl) IN a > Len(d) \/ IsHex(d[a])

------------------------------------------------------------------------------
(* Request line: a record of what it sets *)
CutNul(d) == LET k == FindB(d, 1, 0) IN IF k = 0 THEN d ELSE Upto(d, k - 1)
(* split at the first (last if rev) byte satisfying T; both halves trimmed *)
Split2(d, rev, T(_)) ==
  LET k == IF rev THEN (IF d = <<>> THEN 0 ELSE SelectLastInSeq(d, T)) ELSE FindP(d, 1, T)
  IN IF k = 0 THEN <<Trim(d), <<>>>> ELSE <<Trim(Upto(d, k - 1)), Trim(From(d, k + 1))>>
RequestLine(cfg, line) ==
  LET d == IF cfg.personality = "APACHE_2" THEN CutNul(line) ELSE line
      a == Skip(d, 1, IsSpace)
      b == Skip(d, a, LAMBDA c : ~IsSpace(c))
      r == Skip(d, b, IsSpace)
      ls == Upto(d, a - 1)
      unwanted == ls # <<>> /\ cfg.lead_ws_unwanted # 0
      method == IF unwanted THEN Upto(d, b - 1) ELSE SubSeq(d, a, b - 1)
      mnum == Method(method)
      ws == SubSeq(d, b, r - 1)
      l1 == (IF ls # <<>> THEN Warn("REQUEST_LINE_LEADING_WHITESPACE") ELSE <<>>)
            \o (IF \E i \in 1..Len(ws) : ws[i] # SP THEN Warn("METHOD_DELIM_NON_COMPLIANT") ELSE <<>>)
      rest == Trim(From(d, r))
      IsSp(c) == c = SP
      s1 == Split2(rest, cfg.allow_space_uri, IsSp)
      odd == Len(s1[1]) = Len(rest) /\ FindP(s1[1], 1, IsSpace) # 0
      s == IF odd THEN Split2(rest, cfg.allow_space_uri, IsSpace) ELSE s1
      l2 == IF odd THEN Warn("URI_DELIM_NON_COMPLIANT") ELSE <<>>
      pr == ParseProtocol(s[2])
      Res(uri, protos, p09, proto, logs) ==
        [exp |-> IF unwanted THEN cfg.lead_ws_unwanted ELSE 0, method |-> <<method>>, meth |-> mnum, uri |-> uri, rprotos |-> protos, p09 |-> p09, rproto |-> proto, logs |-> logs]
  IN IF r > Len(d) THEN Res(<<>>, <<>>, TRUE, "V0_9", l1 \o (IF mnum = "UNKNOWN" THEN Warn("REQUEST_LINE_UNKNOWN_METHOD") ELSE <<>>))
     ELSE IF s[2] = <<>> THEN Res(<<s[1]>>, <<>>, TRUE, "V0_9",
                 l1 \o l2 \o (IF mnum = "UNKNOWN" THEN Warn("REQUEST_LINE_UNKNOWN_METHOD_NO_PROTOCOL") ELSE <<>>))
     ELSE Res(<<s[1]>>, <<s[2]>>, FALSE, pr.v,
              l1 \o l2 \o pr.logs \o (IF mnum = "UNKNOWN" /\ pr.v = "INVALID" THEN Warn("REQUEST_LINE_UNKNOWN_METHOD_INVALID_PROTOCOL") ELSE <<>>))
IgnorableLine(d) == d = <<13>> \/ d = <<10>> \/ d = <<13, 10>>

(* Response line *)
ResponseLine(d) ==
  LET a == Skip(d, 1, LAMBDA c : IsSpace(c) \/ c = 0)
      b == Skip(d, a, LAMBDA c : ~IsSpace(c))
      s == Skip(d, b, IsSpace)
      e == Skip(d, s, LAMBDA c : ~IsSpace(c))
      m == Skip(d, e, IsAsciiWs)
      pr == ParseProtocol(SubSeq(d, a, b - 1))
      st == SubSeq(d, s, e - 1)
      noStatus == s = b \/ e = s
  IN IF b = a THEN [sprotos |-> <<>>, sproto |-> "INVALID", statuss |-> <<>>, status |-> -1, msg |-> <<>>, logs |-> <<>>]
     ELSE [sprotos |-> <<SubSeq(d, a, b - 1)>>, sproto |-> pr.v, logs |-> pr.logs,
           statuss |-> IF noStatus THEN <<>> ELSE <<st>>,
           status |-> IF noStatus THEN -1 ELSE ParseStatus(st),
           msg |-> IF noStatus \/ m = e THEN <<>> ELSE <<Chomp(From(d, m))>>]
LineAsBody(d) == LET a == Skip(d, 1, LAMBDA c : IsSpace(c) \/ c = 0) IN ~StartsNoCase(d, a, B("http"))
(* the position after the first line end; 0 if it cannot be told yet *)
AfterEol(d) ==
  LET e == FindP(d, 1, IsEolByte) IN
  IF e = 0 \/ e = Len(d) THEN 0
  ELSE IF d[e] = 13 THEN IF d[e+1] = 10 THEN e + 2 ELSE e + 1
  ELSE IF d[e+1] # 13 THEN e + 1
  ELSE IF e + 2 > Len(d) THEN 0
  ELSE IF d[e+2] = 10 THEN e + 1 ELSE e + 2

------------------------------------------------------------------------------
(* Host names and ports *)
IsLatinAlnum(c) == IsDigit(c) \/ IsAlpha(c) \/ c \in {170, 178, 179, 181, 185, 186, 188, 189, 190}
                   \/ (c >= 192 /\ c <= 214) \/ (c >= 216 /\ c <= 246) \/ c >= 248
IsHostChar(c) == c = 95 \/ c = 45 \/ IsLatinAlnum(c)
HexGroups(d) ==   \* number of colon separated groups of 1..4 hex digits; -1 if malformed
  IF d = <<>> THEN 0
  ELSE LET g == SplitOn(d, COLON)
       IN IF \A i \in 1..Len(g) : Len(g[i]) \in 1..4 /\ \A j \in 1..Len(g[i]) : IsHex(g[i][j]) THEN Len(g) ELSE -1
IsIpv6(d) ==   \* without embedded IPv4
  LET k == FindSeq(d, 1, <<COLON, COLON>>)
      h == IF k = 0 THEN -1 ELSE HexGroups(Upto(d, k - 1))
      t == IF k = 0 THEN -1 ELSE HexGroups(From(d, k + 2))
  IN IF k = 0 THEN HexGroups(d) = 8 ELSE h >= 0 /\ t >= 0 /\ h + t <= 7
ValidHostname(d) ==
  LET br == FindP(d, 2, LAMBDA c : c \in {HASH, QM, SLASH, RBR})
      secs == SplitOn(d, DOT)
  IN IF d = <<>> \/ Len(d) > 255 THEN FALSE
     ELSE IF d[1] = LBR /\ br > 2 /\ d[br] = RBR THEN IsIpv6(SubSeq(d, 2, br - 1))
     ELSE IF d[1] = DOT \/ FindSeq(d, 1, <<DOT, DOT>>) # 0 THEN FALSE
     ELSE \A i \in 1..Len(secs) : Len(secs[i]) <= 63 /\ \A j \in 1..Len(secs[i]) : IsHostChar(secs[i][j])
(* a port number, -1 if unusable *)
PortNumber(d) ==
  LET x == IF d # <<>> /\ d[1] = PLUS THEN Tail(d) ELSE d
      n == IF x = <<>> \/ \E i \in 1..Len(x) : ~IsDigit(x[i]) THEN NONE ELSE DecMax(x, 65535)
  IN IF n > 0 THEN n ELSE -1

Opt(ok, v) == IF ok THEN <<v>> ELSE <<>>
(* parsers over d from position i: ok, p (next position), v *)
HostP(d, i) ==
  LET s == IF StartsAt(d, i, <<SLASH, SLASH>>) THEN i + 2 ELSE i
      a == Skip(d, s, LAMBDA c : c = SP)
      e6 == Skip(d, a + 1, LAMBDA c : c \notin {SLASH, QM, HASH, RBR})
      v6 == a <= Len(d) /\ d[a] = LBR /\ e6 > a + 1
      e == IF v6 THEN (IF e6 <= Len(d) /\ d[e6] = RBR THEN e6 + 1 ELSE e6)
           ELSE Skip(d, a, LAMBDA c : c \notin {SLASH, QM, HASH, COLON})
      v == SubSeq(d, a, e - 1)
  IN IF (s <= Len(d) /\ d[s] = SLASH) \/ e <= a THEN [ok |-> FALSE, p |-> i, v |-> <<>>]
     ELSE [ok |-> TRUE, p |-> e, v |-> Upto(v, LastNot(v, LAMBDA c : c = SP))]
PortP(d, i) ==
  LET a == Skip(d, i + 1, LAMBDA c : c = SP)
      e == Skip(d, a, LAMBDA c : c \notin {SLASH, QM, HASH})
      sp == FindB(d, a, SP)
      ve == IF sp # 0 /\ sp < e THEN sp ELSE e
  IN IF i > Len(d) \/ d[i] # COLON \/ e <= a THEN [ok |-> FALSE, p |-> i, v |-> <<>>]
     ELSE [ok |-> TRUE, p |-> e, v |-> SubSeq(d, a, ve - 1)]
(* host[:port]: ok, host, port (option), portn, valid *)
HostPort(d) ==
  LET h == HostP(d, 1)
      q == PortP(d, h.p)
  IN IF ~h.ok THEN [ok |-> FALSE, host |-> <<>>, port |-> <<>>, portn |-> -1, valid |-> FALSE]
     ELSE IF q.ok THEN [ok |-> TRUE, host |-> h.v, port |-> <<q.v>>, portn |-> PortNumber(q.v),
                        valid |-> ValidHostname(h.v) /\ PortNumber(q.v) # -1]
     ELSE [ok |-> TRUE, host |-> h.v, port |-> <<>>, portn |-> -1, valid |-> ValidHostname(h.v) /\ h.p > Len(d)]

------------------------------------------------------------------------------
(* URIs *)
NoUri == [scheme |-> <<>>, user |-> <<>>, pass |-> <<>>, host |-> <<>>, port |-> <<>>, portn |-> -1,
          path |-> <<>>, query |-> <<>>, frag |-> <<>>]
ParseUri(d) ==
  LET k == FindB(d, 1, COLON)
      sch == d # <<>> /\ d[1] # SLASH /\ k # 0
      i1 == IF sch THEN k + 1 ELSE 1
      at == FindB(d, i1 + 2, AT)
      cr == sch /\ StartsAt(d, i1, <<SLASH, SLASH>>) /\ ~StartsAt(d, i1 + 2, <<SLASH>>) /\ at # 0
      cs == SubSeq(d, i1 + 2, at - 1)
      cc == FindB(cs, 1, COLON)
      i2 == IF cr THEN at + 1 ELSE i1
      h == HostP(d, i2)
      ho == sch /\ h.ok
      i3 == IF ho THEN h.p ELSE i2
      q == PortP(d, i3)
      po == ho /\ q.ok
      i4 == IF po THEN q.p ELSE i3
      e5 == Skip(d, i4, LAMBDA c : c # HASH /\ c # QM)
      e6 == IF e5 <= Len(d) /\ d[e5] = QM THEN Skip(d, e5 + 1, LAMBDA c : c # HASH) ELSE e5
      qo == e6 > e5 + 1
      i6 == IF qo THEN e6 ELSE e5
      fo == i6 <= Len(d) /\ d[i6] = HASH
  IN [scheme |-> Opt(sch, Upto(d, k - 1)),
      user |-> Opt(cr, IF cc = 0 THEN cs ELSE Upto(cs, cc - 1)),
      pass |-> Opt(cr /\ cc # 0, From(cs, cc + 1)),
      host |-> Opt(ho, h.v), port |-> Opt(po, q.v), portn |-> -1,
      path |-> Opt(e5 > i4, SubSeq(d, i4, e5 - 1)),
      query |-> Opt(qo, SubSeq(d, e5 + 1, e6 - 1)),
      frag |-> Opt(fo, From(d, i6 + 1))]

RECURSIVE DotSegs(_, _)
DotSegs(segs, out) ==
  IF segs = <<>> THEN out
  ELSE LET s == segs[1] IN
       DotSegs(Tail(segs), IF s = <<DOT>> THEN out
                           ELSE IF s = <<DOT, DOT>> THEN (IF out = <<>> \/ out = << <<>> >> THEN out ELSE Front(out))
                           ELSE Append(out, s))
RECURSIVE JoinWith(_, _)
JoinWith(segs, b) == IF segs = <<>> THEN <<>> ELSE IF Len(segs) = 1 THEN segs[1] ELSE segs[1] \o <<b>> \o JoinWith(Tail(segs), b)
NormalizePath(d) == JoinWith(DotSegs(SplitOn(d, SLASH), <<>>), SLASH)

StripDots(d) == Upto(d, LastNot(d, LAMBDA c : c = DOT))
(* the normalised URI, the flags it raises, the status the path would be answered with: [u, fl, code] *)
NormalizeUri(c, r) ==
  LET Dec(o) == IF o = <<>> THEN [v |-> <<>>, fl |-> {}] ELSE LET x == DataDecode(c, o[1]) IN [v |-> <<x.v>>, fl |-> UriFlags(x.fl)]
      us == Dec(r.user)  pw == Dec(r.pass)  ho == Dec(r.host)  fr == Dec(r.frag)
      pn == IF r.port = <<>> THEN -1 ELSE PortNumber(r.port[1])
      pd == PathDecode(c, r.path[1])
      u8 == Utf8(c.bestfit_repl, pd.v)
      pt == IF r.path = <<>> THEN [v |-> <<>>, fl |-> {}, code |-> 0]
            ELSE [v |-> <<NormalizePath(IF c.bestfit THEN u8.v ELSE pd.v)>>, fl |-> pd.fl \cup u8.fl, code |-> pd.code]
  IN [u |-> [scheme |-> IF r.scheme = <<>> THEN <<>> ELSE <<LowerSeq(r.scheme[1])>>,
             user |-> us.v, pass |-> pw.v,
             host |-> IF ho.v = <<>> THEN <<>> ELSE <<StripDots(LowerSeq(ho.v[1]))>>,
             port |-> <<>>, portn |-> pn, path |-> pt.v, query |-> r.query, frag |-> fr.v],
      code |-> pt.code, haspath |-> r.path # <<>>,
      fl |-> us.fl \cup pw.fl \cup ho.fl \cup fr.fl \cup pt.fl
             \cup (IF r.port # <<>> /\ pn = -1 THEN {"HOSTU_INVALID"} ELSE {})]
(* the partial and complete normalised URI strings, and the logs: [nuri, cnuri, logs] *)
UriStrings(c, u) ==
  LET O(o) == IF o = <<>> THEN <<>> ELSE o[1]
      pa == IF u.path # <<>> /\ c.double_decode_path THEN DataDecode(c, u.path[1]).v ELSE O(u.path)
      q1 == DataDecode(c, O(u.query)).v
      q2 == IF c.double_decode_query THEN DataDecode(c, q1).v ELSE q1
      part == pa \o (IF u.query # <<>> THEN <<QM>> \o q2 ELSE <<>>) \o (IF u.frag # <<>> THEN <<HASH>> \o u.frag[1] ELSE <<>>)
      full == (IF u.scheme # <<>> THEN u.scheme[1] \o B("://") ELSE <<>>)
              \o (IF u.user # <<>> \/ u.pass # <<>> THEN O(u.user) \o <<COLON>> \o O(u.pass) \o <<AT>> ELSE <<>>)
              \o O(u.host) \o (IF u.port # <<>> THEN <<COLON>> \o u.port[1] ELSE <<>>) \o part
  IN [nuri |-> Opt(part # <<>>, part), cnuri |-> Opt(full # <<>>, full),
      logs |-> (IF Len(pa) < Len(O(u.path)) THEN Warn("DOUBLE_ENCODED_URI") ELSE <<>>)
               \o (IF u.query # <<>> /\ Len(q2) < Len(q1) THEN Warn("DOUBLE_ENCODED_URI") ELSE <<>>)]

------------------------------------------------------------------------------
(* Credentials: [auth, user, pass, tok, ok] of an Authorization value *)
B64Val(c) == IF IsUpper(c) THEN c - 65 ELSE IF IsLower(c) THEN c - 71 ELSE IF IsDigit(c) THEN c + 4
             ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE -1
(* standard base64, the padding may be missing: [ok, v] *)
Base64(d) ==
  LET n == Len(d)
      m == n - Cardinality({i \in 1..n : \A j \in i..n : d[j] = EQ})     \* without the padding
      V(i) == IF i > m THEN 0 ELSE B64Val(d[i])
      Quad(q) == LET a == V(4*q+1)  b == V(4*q+2)  c == V(4*q+3)  e == V(4*q+4)
                 IN <<a * 4 + b \div 16, (b % 16) * 16 + c \div 4, (c % 4) * 64 + e>>
      all == [i \in 1..((m * 6) \div 8) |-> Quad((i - 1) \div 3)[((i - 1) % 3) + 1]]
      tail == IF m % 4 = 2 THEN V(m) % 16 = 0 ELSE IF m % 4 = 3 THEN V(m) % 4 = 0 ELSE TRUE
  IN IF n % 4 = 1 \/ (\E i \in (m + 1)..n : (i - 1) % 4 < 2) \/ (\E i \in 1..m : B64Val(d[i]) = -1) \/ ~tail THEN [ok |-> FALSE, v |-> <<>>]
     ELSE [ok |-> TRUE, v |-> all]
RECURSIVE Quoted(_, _, _)
Quoted(d, i, acc) ==   \* [ok, v]
  LET k == FindB(d, i, DQ)
      a == acc \o SubSeq(d, i, k - 1)
  IN IF k = 0 THEN [ok |-> FALSE, v |-> <<>>]
     ELSE IF a # <<>> /\ a[Len(a)] = BSL THEN Quoted(d, k + 1, Append(Front(a), DQ))
     ELSE [ok |-> TRUE, v |-> a]
Authorization(d) ==
  LET Res(t, u, p, k, ok) == [auth |-> t, auser |-> u, apass |-> p, atok |-> k, ok |-> ok]
      b64 == Base64(From(d, Skip(d, 6, IsAsciiWs)))
      bc == IF b64.ok THEN FindB(b64.v, 1, COLON) ELSE 0
      un == FindSeq(d, 1, B("username="))
      q == IF un = 0 THEN 0 ELSE Skip(d, un + 9, IsAsciiWs)
      dg == IF un = 0 \/ q > Len(d) \/ d[q] # DQ THEN [ok |-> FALSE, v |-> <<>>] ELSE Quoted(d, q + 1, <<>>)
  IN IF StartsNoCase(d, 1, B("basic"))
     THEN IF bc = 0 THEN Res("BASIC", <<>>, <<>>, <<>>, FALSE)
          ELSE Res("BASIC", <<Upto(b64.v, bc - 1)>>, <<From(b64.v, bc + 1)>>, <<>>, TRUE)
     ELSE IF StartsNoCase(d, 1, B("digest")) THEN IF dg.ok THEN Res("DIGEST", <<dg.v>>, <<>>, <<>>, TRUE) ELSE Res("DIGEST", <<>>, <<>>, <<>>, FALSE)
     ELSE IF StartsNoCase(d, 1, B("bearer")) THEN Res("BEARER", <<>>, <<>>, <<From(d, Skip(d, 7, IsAsciiWs))>>, TRUE)
     ELSE Res("UNRECOGNIZED", <<>>, <<>>, <<>>, TRUE)
(* content type of a request: [ok, v] *)
ReqContentType(d) ==
  LET a == Skip(d, 1, IsAsciiWs)
      e == Skip(d, a, LAMBDA c : c \notin {SEMI, COMMA, SP})
  IN [ok |-> e > a, v |-> LowerSeq(SubSeq(d, a, e - 1))]
RespContentType(d) == LET e == Skip(d, 1, LAMBDA c : c # SEMI /\ ~IsSpace(c)) IN LowerSeq(Upto(d, e - 1))
=============================================================================
