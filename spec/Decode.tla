------------------------------- MODULE Decode -------------------------------
(* Percent, %u, plus, NUL and UTF-8 decoding of URI parts under a decoder
   configuration c (a record with the harness's configuration names).         *)
EXTENDS Bytes, BestFit

(* two characters taken as hex digits, valid or not *)
Nib(c) == IF c >= 65 THEN ((IF (c \div 32) % 2 = 1 THEN c - 32 ELSE c) - 55 + 256) % 256
          ELSE (c - 48 + 256) % 256
X2C(a, b) == (((Nib(a) * 16) % 256) + Nib(b)) % 256
HexAt(d, i, n) == i + n - 1 <= Len(d) /\ \A k \in i..(i + n - 1) : IsHex(d[k])
IsU(d, i) == i <= Len(d) /\ (d[i] = 117 \/ d[i] = 85)

(* one decoding step: next position (Len+1 on termination), the byte, whether
   it is kept, the flags raised, and the status a server so configured would
   answer with (0: nothing it would object to)                                *)
St(p, b, keep, fl, code) == [p |-> p, b |-> b, keep |-> keep, fl |-> fl, code |-> code]
(* of two objections the later one counts *)
Or(a, b) == IF b = 0 THEN a ELSE b

------------------------------------------------------------------------------
(* Paths *)
PathControl(c, b) == LET b1 == IF b = BSL /\ c.backslash THEN SLASH ELSE b
                     IN IF c.lowercase THEN Lower(b1) ELSE b1
IsSep(c, b) == b = SLASH \/ (c.backslash /\ b = BSL)

PathU(c, d, i) ==   \* four characters at i, as a %u code
  LET hi == X2C(d[i], d[i+1])  lo == X2C(d[i+2], d[i+3])
      b == IF hi = 0 THEN lo ELSE BestFit(hi * 256 + lo, c.bestfit_repl)
  IN [b |-> b, fl |-> (IF hi = 0 THEN {"PATH_OVERLONG_U"} ELSE IF hi = 255 THEN {"PATH_HALF_FULL_RANGE"} ELSE {})
                      \cup (IF IsSep(c, b) THEN {"PATH_ENCODED_SEPARATOR"} ELSE {}),
      code |-> Or(IF hi = 0 THEN 0 ELSE c.u_unwanted, IF IsSep(c, b) THEN c.sep_unwanted ELSE 0)]

PathStep(c, d, i) ==
  LET end == Len(d) + 1
      Kept(p, b, fl, code) == St(p, PathControl(c, b), TRUE, fl, IF b < 32 THEN Or(code, c.ctl_unwanted) ELSE code)
      Inv == {"PATH_INVALID_ENCODING"}
      Short == St(i + 1, PCT, c.inv_handling # "REMOVE", Inv, c.inv_unwanted)
  IN IF d[i] # PCT
     THEN LET code == IF d[i] = 0 THEN c.nul_raw_unwanted ELSE 0
          IN IF d[i] = 0 /\ c.nul_raw_term THEN St(end, 0, FALSE, {}, code) ELSE Kept(i + 1, d[i], {}, code)
     ELSE IF IsU(d, i + 1)
     THEN IF ~c.u_decode THEN Kept(i + 1, PCT, {}, 0)
          ELSE IF HexAt(d, i + 2, 4)
          THEN LET u == PathU(c, d, i + 2)
                   fl == u.fl \cup (IF u.b = 0 THEN {"PATH_ENCODED_NUL"} ELSE {})
                   code == Or(Or(c.u_unwanted, u.code), IF u.b = 0 THEN c.nul_enc_unwanted ELSE 0)
               IN IF u.b = 0 /\ c.nul_enc_term THEN St(end, 0, FALSE, fl, code) ELSE Kept(i + 6, u.b, fl, code)
          ELSE IF i + 5 > Len(d) \/ c.inv_handling = "REMOVE" THEN Short
          ELSE IF c.inv_handling = "PROCESS"
          THEN LET u == PathU(c, d, i + 2) IN Kept(i + 6, u.b, u.fl \cup Inv, Or(c.inv_unwanted, u.code))
          ELSE Kept(i + 1, PCT, Inv, c.inv_unwanted)
     ELSE IF HexAt(d, i + 1, 2)
     THEN LET b == X2C(d[i+1], d[i+2])
              fl == (IF b = 0 THEN {"PATH_ENCODED_NUL"} ELSE {}) \cup (IF IsSep(c, b) THEN {"PATH_ENCODED_SEPARATOR"} ELSE {})
              code == IF b = 0 THEN c.nul_enc_unwanted ELSE IF IsSep(c, b) THEN c.sep_unwanted ELSE 0
          IN IF b = 0 /\ c.nul_enc_term THEN St(end, 0, FALSE, fl, code)
             ELSE IF IsSep(c, b) /\ ~c.sep_decode THEN Kept(i + 1, PCT, fl, code)
             ELSE Kept(i + 3, b, fl, code)
     ELSE IF i + 2 > Len(d) \/ c.inv_handling = "REMOVE" THEN Short
     ELSE IF c.inv_handling = "PROCESS" THEN Kept(i + 3, X2C(d[i+1], d[i+2]), Inv, c.inv_unwanted)
     ELSE Kept(i + 1, PCT, Inv, c.inv_unwanted)

PathOrdinary(b) == b >= 32 /\ b # PCT /\ b # SLASH /\ b # BSL
RECURSIVE PathLoop(_, _, _, _, _, _)
PathLoop(c, d, i, out, fl, code) ==
  IF i > Len(d) THEN [v |-> out, fl |-> fl, code |-> code]
  ELSE LET j == Skip(d, i, PathOrdinary) IN
  IF j > i    \* a run of bytes nothing happens to
  THEN LET run == SubSeq(d, i, j - 1) IN PathLoop(c, d, j, out \o (IF c.lowercase THEN LowerSeq(run) ELSE run), fl, code)
  ELSE LET s == PathStep(c, d, i)
           drop == ~s.keep \/ (s.b = SLASH /\ c.sep_compress /\ out # <<>> /\ out[Len(out)] = SLASH)
       IN PathLoop(c, d, s.p, IF drop THEN out ELSE Append(out, s.b), fl \cup s.fl, Or(code, s.code))
PathDecode(c, d) == PathLoop(c, d, 1, <<>>, {}, 0)

------------------------------------------------------------------------------
(* Everything else: credentials, host, query, fragment, parameters *)
DataU(c, d, i) ==
  LET hi == X2C(d[i], d[i+1])  lo == X2C(d[i+2], d[i+3])
  IN IF hi = 0 THEN [b |-> lo, fl |-> {"URLEN_OVERLONG_U"}]
     ELSE [b |-> BestFit(hi * 256 + lo, c.bestfit_repl),
           fl |-> IF hi = 255 /\ lo <= 239 THEN {"URLEN_HALF_FULL_RANGE"} ELSE {}]

DataPercent(c, d, i) ==
  LET Inv == {"URLEN_INVALID_ENCODING"}
      Plain == St(i + 1, PCT, c.inv_handling # "REMOVE", Inv, c.inv_unwanted)
  IN IF IsU(d, i + 1)
     THEN IF ~c.u_decode THEN St(i + 1, PCT, TRUE, {}, 0)
          ELSE IF HexAt(d, i + 2, 4) THEN LET u == DataU(c, d, i + 2) IN St(i + 6, u.b, TRUE, u.fl, c.u_unwanted)
          ELSE IF i + 5 > Len(d) THEN Plain
          ELSE IF c.inv_handling # "PROCESS" THEN [Plain EXCEPT !.code = Or(c.u_unwanted, @)]
          ELSE LET u == DataU(c, d, i + 2) IN St(i + 6, u.b, TRUE, u.fl \cup Inv, Or(c.u_unwanted, c.inv_unwanted))
     ELSE IF HexAt(d, i + 1, 2) THEN St(i + 3, X2C(d[i+1], d[i+2]), TRUE, {}, 0)
     ELSE IF i + 2 > Len(d) \/ c.inv_handling # "PROCESS" THEN Plain
     ELSE St(i + 3, X2C(d[i+1], d[i+2]), TRUE, Inv, c.inv_unwanted)

DataStep(c, d, i) ==
  LET end == Len(d) + 1 IN
  IF d[i] = PCT
  THEN LET s == DataPercent(c, d, i) IN
       IF s.b # 0 THEN s
       ELSE LET fl == s.fl \cup {"URLEN_ENCODED_NUL"}
                code == Or(s.code, c.nul_enc_unwanted)
            IN IF c.nul_enc_term THEN St(end, 0, FALSE, fl, code) ELSE St(s.p, 0, s.keep, fl, code)
  ELSE IF d[i] = PLUS THEN St(i + 1, IF c.plusspace THEN SP ELSE PLUS, TRUE, {}, 0)
  ELSE IF d[i] = 0 THEN St(IF c.nul_raw_term THEN end ELSE i + 1, 0, ~c.nul_raw_term, {"URLEN_RAW_NUL"}, c.nul_raw_unwanted)
  ELSE St(i + 1, d[i], TRUE, {}, 0)

DataOrdinary(b) == b # PCT /\ b # 0 /\ b # PLUS
RECURSIVE DataLoop(_, _, _, _, _, _)
DataLoop(c, d, i, out, fl, code) ==
  IF i > Len(d) THEN [v |-> out, fl |-> fl, code |-> code]
  ELSE LET j == Skip(d, i, DataOrdinary) IN
  IF j > i THEN DataLoop(c, d, j, out \o SubSeq(d, i, j - 1), fl, code)
  ELSE LET s == DataStep(c, d, i)
       IN DataLoop(c, d, s.p, IF s.keep THEN Append(out, s.b) ELSE out, fl \cup s.fl, Or(code, s.code))
DataDecode(c, d) == DataLoop(c, d, 1, <<>>, {}, 0)

(* the flags of a decoded URI part, as recorded on the transaction *)
UriFlags(fl) == (IF "URLEN_INVALID_ENCODING" \in fl THEN {"PATH_INVALID_ENCODING"} ELSE {})
                \cup (IF "URLEN_ENCODED_NUL" \in fl THEN {"PATH_ENCODED_NUL"} ELSE {})
                \cup (IF "URLEN_RAW_NUL" \in fl THEN {"PATH_RAW_NUL"} ELSE {})

------------------------------------------------------------------------------
(* UTF-8.  need: states of the automaton, 0 = between characters, 1 = error *)
Utf8Type(b) == IF b < 128 THEN 0 ELSE IF b < 144 THEN 1 ELSE IF b < 160 THEN 9 ELSE IF b < 192 THEN 7
               ELSE IF b < 224 THEN 2 ELSE IF b = 237 THEN 4 ELSE IF b < 240 THEN 3
               ELSE IF b < 244 THEN 6 ELSE IF b = 244 THEN 5 ELSE 8
Utf8Next(st, t) ==
  CASE st = 0 -> (CASE t = 0 -> 0 [] t = 2 -> 2 [] t = 3 -> 3 [] t = 4 -> 5 [] t = 5 -> 8 [] t = 6 -> 7 [] OTHER -> 1)
    [] st = 2 -> IF t \in {1, 7, 9} THEN 0 ELSE 1
    [] st = 3 -> IF t \in {1, 7, 9} THEN 2 ELSE 1
    [] st = 4 -> IF t = 7 THEN 2 ELSE 1
    [] st = 5 -> IF t \in {1, 9} THEN 2 ELSE 1
    [] st = 6 -> IF t \in {7, 9} THEN 3 ELSE 1
    [] st = 7 -> IF t \in {1, 7, 9} THEN 3 ELSE 1
    [] st = 8 -> IF t = 1 THEN 3 ELSE 1
    [] OTHER -> 1
Utf8Mask(t) == CASE t = 0 -> 256 [] t = 1 -> 128 [] t = 2 -> 64 [] t = 3 -> 32 [] t = 4 -> 16
                 [] t = 5 -> 8 [] t = 6 -> 4 [] t = 7 -> 2 [] OTHER -> 1

IsAscii(b) == b < 128
RECURSIVE Utf8Loop(_, _, _, _, _, _, _, _, _)
Utf8Loop(repl, d, i, st, seq, cp, out, fl, valid) ==
  IF i > Len(d)
  THEN [v |-> out, fl |-> fl \cup (IF valid /\ "PATH_UTF8_INVALID" \notin fl THEN {"PATH_UTF8_VALID"} ELSE {})]
  ELSE IF st = 0 /\ IsAscii(d[i])
  THEN LET j == Skip(d, i, IsAscii) IN Utf8Loop(repl, d, j, 0, 0, d[j - 1], out \o SubSeq(d, i, j - 1), fl, valid)
  ELSE LET t == Utf8Type(d[i])
           n == Utf8Next(st, t)
           q == seq + 1
           k == IF st # 0 THEN (d[i] % 64) + (cp * 64) ELSE d[i] % Utf8Mask(t)
       IN IF n = 0
          THEN IF q = 1 THEN Utf8Loop(repl, d, i + 1, 0, 0, k, Append(out, k), fl, valid)
               ELSE Utf8Loop(repl, d, i + 1, 0, 0, k,
                      Append(out, IF k < 256 THEN k ELSE BestFit(k, repl)),
                      fl \cup (IF (q = 2 /\ k < 128) \/ (q = 3 /\ k < 2048) \/ (q = 4 /\ k < 65536)
                               THEN {"PATH_UTF8_OVERLONG"} ELSE {})
                         \cup (IF k >= 65280 /\ k <= 65519 THEN {"PATH_HALF_FULL_RANGE"} ELSE {}),
                      TRUE)
          ELSE IF n = 1
          THEN \* an invalid byte; if it ended a sequence it is looked at again on its own
               Utf8Loop(repl, d, IF q # 1 THEN i ELSE i + 1, 0, 0, 0, Append(out, repl),
                        fl \cup {"PATH_UTF8_INVALID"}, valid)
          ELSE Utf8Loop(repl, d, i + 1, n, q, k,
                 IF i = Len(d) THEN out \o [x \in 1..(q - 1) |-> repl] ELSE out, fl, valid)
Utf8(repl, d) == Utf8Loop(repl, d, 1, 0, 0, 0, <<>>, {}, FALSE)

------------------------------------------------------------------------------
(* Urlencoded parameters: u = [field, params, saw, done, fl, code] *)
UrlInit == [field |-> <<>>, params |-> <<>>, saw |-> FALSE, done |-> FALSE, fl |-> {}, code |-> 0]
RECURSIVE AddSegments(_, _, _)
AddSegments(c, segs, u) ==
  IF segs = <<>> THEN u
  ELSE LET s == segs[1]
           e == FindB(s, 1, EQ)
           nm == DataDecode(c, IF e = 0 THEN s ELSE Upto(s, e - 1))
           vl == DataDecode(c, IF e = 0 THEN <<>> ELSE From(s, e + 1))
       IN AddSegments(c, Tail(segs),
            IF s = <<>> THEN u
            ELSE [u EXCEPT !.params = Append(u.params, [n |-> nm.v, v |-> vl.v]), !.fl = u.fl \cup nm.fl \cup vl.fl,
                                !.code = Or(u.code, Or(nm.code, vl.code))])
UrlPartial(c, u, d) ==
  LET f == u.field \o d
      k == SelectLastInSeq(f, LAMBDA b : b = AMP)
  IN IF f = <<>>
     THEN IF u.done /\ u.params = <<>> /\ u.saw THEN [u EXCEPT !.params = <<[n |-> <<>>, v |-> <<>>]>>] ELSE u
     ELSE IF u.done THEN [AddSegments(c, SplitOn(f, AMP), [u EXCEPT !.saw = TRUE]) EXCEPT !.field = <<>>]
     ELSE IF k = 0 THEN [u EXCEPT !.field = f, !.saw = TRUE]
     ELSE [AddSegments(c, SplitOn(Upto(f, k - 1), AMP), [u EXCEPT !.saw = TRUE]) EXCEPT !.field = From(f, k + 1)]
UrlFinalize(c, u) == UrlPartial(c, [u EXCEPT !.done = TRUE], <<>>)
UrlComplete(c, d) == UrlFinalize(c, UrlPartial(c, UrlInit, d))
=============================================================================
