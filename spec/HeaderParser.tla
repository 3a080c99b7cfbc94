---------------------------- MODULE HeaderParser ----------------------------
(* The header block parser: a transcription of its grammar.  A parser takes
   the input d and a position i (the rest of the input starts at i) and yields
     ok  : the position after what it matched (and what it parsed)
     err : no match
     inc : cannot tell before more input has arrived
   `side` is "req" or "resp": on the response side a bare CR and LF CR end a
   line too.  `compl` tells that no more input will come.                     *)
EXTENDS Bytes

Ok(p) == [k |-> "ok", p |-> p]
Err == [k |-> "err", p |-> 0]
Inc == [k |-> "inc", p |-> 0]

CRLF == <<13, 10>>

TagC(d, i, t) == IF StartsAt(d, i, t) THEN Ok(i + Len(t)) ELSE Err   \* complete tag
Peek(d, i) == IF i <= Len(d) THEN d[i] ELSE -1

(* regular line ends; the order of the alternatives matters *)
EolRegular(side, d, i) ==
  LET a == Peek(d, i)  b == Peek(d, i + 1) IN
  IF side = "resp"
  THEN IF a = 13 /\ b = 10 THEN Ok(i + 2)
       ELSE IF a = 10 /\ b = 13 THEN Ok(i + 2)
       ELSE IF a = 10 \/ a = 13 THEN Ok(i + 1) ELSE Err
  ELSE IF a = 13 /\ b = 10 THEN Ok(i + 2) ELSE IF a = 10 THEN Ok(i + 1) ELSE Err

EndsLine(d, i) == Peek(d, i) = 10 \/ (Peek(d, i) = 13 /\ Peek(d, i + 1) = 10)

(* LF CR CR LF directly followed by a line end: a deformed line end *)
Deformed1(d, i) == IF StartsAt(d, i, <<10, 13, 13, 10>>) /\ EndsLine(d, i + 4) THEN Ok(i + 4) ELSE Err
(* line end, one blank, line end: as one line end *)
FoldingEmpty(side, d, i) ==
  LET e1 == EolRegular(side, d, i) IN
  IF e1.k # "ok" \/ ~IsBlank(Peek(d, e1.p)) THEN Err ELSE EolRegular(side, d, e1.p + 1)
(* CR LF CR, then CRs and blanks, then an optional LF, not before a line end *)
Deformed3(d, i) ==
  IF ~StartsAt(d, i, <<13, 10, 13>>) THEN Err
  ELSE LET j == Skip(d, i + 3, LAMBDA c : c = 13 \/ c = 32 \/ c = 9)
       IN IF j > Len(d) THEN Inc
          ELSE IF j = i + 3 THEN Err
          ELSE LET m == IF d[j] = 10 THEN j + 1 ELSE j
               IN IF EndsLine(d, m) THEN Err ELSE Ok(m)

(* result: k, p, fl (flags) *)
EolComplete(side, d, i) ==
  LET WithFl(r, f) == [k |-> r.k, p |-> r.p, fl |-> f]
      reg == EolRegular(side, d, i)
      d1 == Deformed1(d, i)
  IN IF d1.k = "ok" THEN WithFl(d1, {"DEFORMED_EOL"})
     ELSE IF side = "resp"
     THEN LET fe == FoldingEmpty(side, d, i) IN
          IF fe.k = "ok" THEN WithFl(fe, {})
          ELSE LET d3 == Deformed3(d, i) IN
               IF d3.k = "ok" THEN WithFl(d3, {"DEFORMED_EOL"})
               ELSE IF d3.k = "inc" THEN WithFl(Inc, {})
               ELSE WithFl(reg, {})
     ELSE IF StartsAt(d, i, <<10, 13, 13, 10>>) THEN WithFl(Ok(i + 2), {"DEFORMED_EOL"})
     ELSE WithFl(reg, {})

(* folding white space, streaming: at the end of the input nobody knows *)
FoldLws(d, i) == IF i > Len(d) THEN Inc
                 ELSE IF d[i] = 32 \/ d[i] = 9 \/ d[i] = 0 THEN Ok(i + 1) ELSE Err

(* a line end that is followed by folding: [k, p, fl, fold (bytes), eol (length)] *)
Folding(side, d, i) ==
  LET e == IF side = "resp" THEN LET r == EolRegular(side, d, i) IN [k |-> r.k, p |-> r.p, fl |-> {}]
           ELSE EolComplete(side, d, i)
      Res(k, p, fl, fold, eol) == [k |-> k, p |-> p, fl |-> fl, fold |-> fold, eol |-> eol]
  IN IF e.k # "ok" THEN Res(e.k, 0, {}, <<>>, 0)
     ELSE LET l == FoldLws(d, e.p) IN
          IF l.k # "ok" THEN Res(l.k, 0, {}, <<>>, 0)
          ELSE Res("ok", l.p, e.fl \cup {"FOLDING"}, <<<<d[e.p]>>>>, e.p - i)

FoldingOrTerminator(side, compl, d, i) ==
  LET Res(k, p, fl, eol) == [k |-> k, p |-> p, fl |-> fl, fold |-> <<>>, eol |-> eol]
      f == Folding(side, d, i)
      e == EolComplete(side, d, i)
  IN IF f.k = "ok" \/ (f.k = "inc" /\ ~compl) THEN f
     ELSE IF Peek(d, i) = 0 THEN Res("ok", i + 1, {"NULL_TERMINATED"}, 1)
     ELSE IF compl THEN Res(e.k, e.p, e.fl, e.p - i)
     ELSE IF e.k # "ok" THEN Res(e.k, 0, {}, 0)
     ELSE LET l == FoldLws(d, e.p) IN      \* a line end not followed by folding
          IF l.k = "inc" THEN Res("inc", 0, {}, 0)
          ELSE IF l.k = "ok" THEN Res("err", 0, {}, 0)
          ELSE Res("ok", e.p, e.fl, e.p - i)

(* bytes of a value up to its line end or folding: [k, p, v, fl, fold, eol] *)
ValueBytes(side, compl, d, i) ==
  LET IsEnd(c) == c = 10 \/ (side = "resp" /\ c = 13)
      e == FindP(d, i, IsEnd)
      Res(r, v) == [k |-> r.k, p |-> r.p, v |-> v, fl |-> r.fl, fold |-> r.fold, eol |-> r.eol]
  IN IF e = 0 THEN [k |-> "inc", p |-> 0, v |-> <<>>, fl |-> {}, fold |-> <<>>, eol |-> 0]
     ELSE LET e2 == IF e > i /\ d[e - 1] = 13 THEN e - 1 ELSE e
          IN Res(FoldingOrTerminator(side, compl, d, e2), SubSeq(d, i, e2 - 1))

IsToken(c) == c >= 32 /\ c <= 126 /\ c \notin
  {40, 41, 60, 62, 64, 44, 59, 58, 92, 34, 47, 91, 93, 63, 61, 123, 125, 32, 9}

(* blanks, token characters, blanks -- all streaming; [k, p, n (token length)] *)
TokenChars(d, i) ==
  LET a == Skip(d, i, IsBlank) IN
  IF a > Len(d) THEN [k |-> "inc", p |-> 0, n |-> 0]
  ELSE LET b == Skip(d, a, IsToken) IN
       IF b > Len(d) THEN [k |-> "inc", p |-> 0, n |-> 0]
       ELSE LET c == Skip(d, b, IsBlank) IN
            IF c > Len(d) THEN [k |-> "inc", p |-> 0, n |-> 0]
            ELSE [k |-> "ok", p |-> c, n |-> b - a]

Separator(d, i) == IF Peek(d, i) # COLON THEN Err
                   ELSE LET j == Skip(d, i + 1, IsBlank) IN IF j > Len(d) THEN Inc ELSE Ok(j)

(* a header value with its continuation lines: [k, p, v, fl] *)
RECURSIVE ValueCont(_, _, _, _, _, _, _, _)
ValueCont(side, compl, d, i, rest, value, fl, ofold) ==
  LET tc == TokenChars(d, i)
      sep == IF tc.k = "ok" THEN Separator(d, tc.p) ELSE [k |-> tc.k, p |-> 0]
      newname == sep.k = "ok" /\ tc.n > 0     \* looks like a header of its own
      Res(k, p, v, f) == [k |-> k, p |-> p, v |-> Trim(v), fl |-> f]
  IN IF side = "resp" /\ newname
     THEN Res("ok", i, value, (fl \ {"FOLDING", "FOLDING_SPECIAL_CASE"})
                              \cup (IF value = <<>> THEN {"VALUE_EMPTY"} ELSE {}))
     ELSE IF side = "resp" /\ sep.k = "inc" THEN Res("inc", 0, <<>>, {})
     ELSE LET vb == ValueBytes(side, compl, d, i) IN
          IF vb.k # "ok" THEN Res(vb.k, 0, <<>>, {})
          ELSE LET fl2 == fl \cup vb.fl
                   v1 == IF value = <<>> THEN value ELSE value \o (IF ofold = <<>> THEN <<SP>> ELSE <<ofold[1]>>)
                   keep == vb.v # <<>> \/ vb.eol > 1
                   v2 == IF keep THEN v1 \o vb.v ELSE v1
                   rest2 == IF keep THEN vb.p
                            ELSE IF vb.eol = 1 /\ Peek(d, vb.p) = 10 THEN vb.p ELSE rest
               IN IF vb.fold # <<>>
                  THEN ValueCont(side, compl, d, vb.p, rest2, v2, fl2, vb.fold[1])
                  ELSE Res("ok", rest2, v2, fl2)

ParseValue(side, compl, d, i) ==
  LET vb == ValueBytes(side, compl, d, i) IN
  IF vb.k # "ok" THEN [k |-> vb.k, p |-> 0, v |-> <<>>, fl |-> {}]
  ELSE IF vb.fold = <<>>
  THEN [k |-> "ok", p |-> vb.p, v |-> Trim(vb.v),
        fl |-> vb.fl \cup (IF vb.v = <<>> THEN {"VALUE_EMPTY"} ELSE {})]
  ELSE ValueCont(side, compl, d, vb.p, vb.p, vb.v, vb.fl, vb.fold[1])

(* where the name ends: at the first colon, or at a line end that is not
   followed by a space (then there is no colon on this line)                  *)
RECURSIVE NameEnd(_, _, _)
NameEnd(d, i, j) ==
  LET k == FindP(d, j, LAMBDA c : c = COLON \/ c = LF) IN
  IF k = 0 THEN i
  ELSE IF d[k] = COLON THEN k
  ELSE IF k + 1 > Len(d) THEN i
  ELSE IF d[k + 1] = SP THEN NameEnd(d, i, k + 2)
  ELSE k

ParseName(d, i) ==
  LET e == NameEnd(d, i, i)
      n == SubSeq(d, i, e - 1)
      tc == TokenChars(n, 1)
  IN [p |-> e, n |-> Trim(n),
      fl |-> IF n = <<>> THEN {"NAME_EMPTY"}
             ELSE (IF IsBlank(n[1]) THEN {"NAME_LEADING_WHITESPACE"} ELSE {})
                  \cup (IF IsBlank(n[Len(n)]) THEN {"NAME_TRAILING_WHITESPACE"} ELSE {})
                  \cup (IF tc.k = "ok" /\ tc.p <= Len(n) THEN {"NAME_NON_TOKEN_CHARS"} ELSE {})]

(* one header: [k, p, h : [n, nfl, v, vfl]] *)
NoHeader == [n |-> <<>>, nfl |-> {}, v |-> <<>>, vfl |-> {}]
ParseHeader(side, compl, d, i) ==
  LET nm == ParseName(d, i)
      sep == Separator(d, nm.p)
      val == IF sep.k = "ok" THEN ParseValue(side, compl, d, sep.p) ELSE [k |-> "err", p |-> 0, v |-> <<>>, fl |-> {}]
  IN IF val.k = "ok"
     THEN [k |-> "ok", p |-> val.p, h |-> [n |-> nm.n, nfl |-> nm.fl, v |-> val.v, vfl |-> val.fl]]
     ELSE IF StartsAt(d, i, CRLF) THEN [k |-> "err", p |-> 0, h |-> NoHeader]
     ELSE LET v == ParseValue(side, compl, d, i)
              f == v.fl \cup {"MISSING_COLON", "NAME_EMPTY"}
          IN [k |-> v.k, p |-> v.p, h |-> [n |-> <<>>, nfl |-> f, v |-> v.v, vfl |-> f]]

(* a run of headers: [k, p, hs, eoh] -- k = "inc": not even one header is complete *)
RECURSIVE HeadersFrom(_, _, _, _, _)
HeadersFrom(side, compl, d, i, acc) ==
  LET h == ParseHeader(side, compl, d, i)
      hs == Append(acc, h.h)
      Res(k, p, x, eoh) == [k |-> k, p |-> p, hs |-> x, eoh |-> eoh]
  IN IF h.k = "ok"
     THEN IF "NULL_TERMINATED" \in h.h.vfl THEN Res("ok", h.p, hs, TRUE)
          ELSE LET e == EolRegular(side, d, h.p) IN
               IF e.k = "ok" THEN Res("ok", e.p, hs, TRUE)
               ELSE HeadersFrom(side, compl, d, h.p, hs)
     ELSE IF h.k = "inc" /\ acc # <<>> THEN Res("ok", i, acc, FALSE)
     ELSE Res(h.k, 0, <<>>, FALSE)
ParseHeaders(side, compl, d) == HeadersFrom(side, compl, d, 1, <<>>)
=============================================================================
