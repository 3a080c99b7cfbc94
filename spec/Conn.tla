-------------------------------- MODULE Conn --------------------------------
(* The connection parser.  A connection is a record p; every public call of the
   library (open, request_data, response_data, request_close, close,
   remove_tx) is an operator from a connection and its argument to the next
   connection, whose fields ret, pos, ev and logs are what the caller sees.

   The state machine has the states of the two parsers (rst, sst), which run
   one after the other inside a call on the bytes that call was given, until
   one of them needs more data (rc = "DATA" ...) or fails.  All of it is
   deterministic, except the output of a decompressor, which the environment
   chooses (p.oracle; see Decompress).                                        *)
EXTENDS Parsers, HeaderParser, FiniteSets

------------------------------------------------------------------------------
(* Configuration: defaults, server personalities, and the keys of a scenario *)
BaseCfg == [personality |-> "NONE", two |-> FALSE, txhook |-> FALSE,
  field_limit |-> 18000, max_tx |-> 512, auto_destroy |-> FALSE, flush |-> FALSE,
  parse_urlencoded |-> FALSE, parse_auth |-> TRUE, allow_space_uri |-> FALSE, lead_ws_unwanted |-> 0,
  req_decomp |-> FALSE, resp_decomp |-> TRUE, layer_limit |-> 2, lzma_layers |-> 1,
  bomb_limit |-> 1048576, bomb_ratio |-> 2048, log_level |-> "NOTICE",
  double_decode_path |-> FALSE, double_decode_query |-> FALSE,
  backslash |-> FALSE, lowercase |-> FALSE, sep_compress |-> FALSE, sep_decode |-> FALSE, plusspace |-> TRUE,
  sep_unwanted |-> 0, nul_raw_term |-> FALSE, nul_raw_unwanted |-> 0, ctl_unwanted |-> 0,
  u_decode |-> FALSE, u_unwanted |-> 0, inv_handling |-> "PRESERVE", inv_unwanted |-> 0,
  nul_enc_term |-> FALSE, nul_enc_unwanted |-> 0, utf8_unwanted |-> 0, bestfit |-> FALSE, bestfit_repl |-> 63]
Overlay(a, b) == [k \in DOMAIN a \cup DOMAIN b |-> IF k \in DOMAIN b THEN b[k] ELSE a[k]]
Personality(n) ==
  LET slashes == [backslash |-> TRUE, sep_decode |-> TRUE, sep_compress |-> TRUE]
  IN CASE n = "GENERIC" -> slashes
       [] n = "IDS" -> Overlay(slashes, [lowercase |-> TRUE, bestfit |-> TRUE, u_decode |-> TRUE])
       [] n = "APACHE_2" -> [sep_compress |-> TRUE, lead_ws_unwanted |-> 400, inv_unwanted |-> 400]
       [] n = "IIS_5_1" -> slashes
       [] n = "IIS_6_0" -> Overlay(slashes, [u_decode |-> TRUE, u_unwanted |-> 400, ctl_unwanted |-> 400])
       [] n \in {"IIS_7_0", "IIS_7_5"} -> Overlay(slashes, [u_decode |-> TRUE, inv_unwanted |-> 400, ctl_unwanted |-> 400])
       [] OTHER -> <<>>
Cfg(j) == Overlay(IF "personality" \in DOMAIN j THEN Overlay(BaseCfg, Personality(j.personality)) ELSE BaseCfg, j)

------------------------------------------------------------------------------
BlankTx(i) == [i |-> i, rp |-> "NOT_STARTED", sp |-> "NOT_STARTED", meth |-> "UNKNOWN",
  rproto |-> "UNKNOWN", sproto |-> "UNKNOWN", p09 |-> FALSE, status |-> 0, exp |-> 0, rtc |-> "UNKNOWN", stc |-> "UNKNOWN",
  rml |-> 0, rel |-> 0, sml |-> 0, sel |-> 0, rcl |-> -1, scl |-> -1, flags |-> {},
  c100 |-> FALSE, h2c |-> FALSE, rign |-> 0, sign |-> 0,
  rline |-> <<>>, method |-> <<>>, uri |-> <<>>, rprotos |-> <<>>,
  sline |-> <<>>, sprotos |-> <<>>, statuss |-> <<>>, msg |-> <<>>, rh |-> <<>>, sh |-> <<>>,
  rce |-> "NONE", sce |-> "NONE", rcep |-> "NONE", scep |-> "NONE", host |-> <<>>, port |-> -1,
  rct |-> <<>>, sct |-> <<>>, auth |-> "UNKNOWN", auser |-> <<>>, apass |-> <<>>, atok |-> <<>>,
  rreps |-> 0, sreps |-> 0, puri |-> <<>>, rawuri |-> <<>>, nuri |-> <<>>, cnuri |-> <<>>,
  \* not visible: header parsers told that no more data comes, hooks of this transaction, decompressors
  rcompl |-> FALSE, scompl |-> FALSE, rtxh |-> FALSE, stxh |-> FALSE, rlayers |-> <<>>, slayers |-> <<>>,
  rdec |-> FALSE, sdec |-> FALSE]

NewConn(cfg, vd) == [cfg |-> cfg, vd |-> vd, cnt |-> <<>>,
  rs |-> "NEW", ss |-> "NEW", rst |-> "IDLE", rpv |-> "NONE", sst |-> "IDLE", spv |-> "NONE",
  ri |-> 0, si |-> 0, txs |-> <<>>, other |-> FALSE, cc |-> 0, cri |-> 0,
  rbuf |-> <<>>, rhdr |-> <<>>, rcl |-> -1, rleft |-> -1, rchunk |-> -1, rrcv |-> "none",
  sbuf |-> <<>>, shdr |-> <<>>, scl |-> -1, sleft |-> -1, schunk |-> -1, srcv |-> "none",
  rcnt |-> 0, scnt |-> 0, pipe |-> FALSE, ext09 |-> FALSE,
  \* the call in progress
  in |-> <<>>, hasdata |-> FALSE, gap |-> -1, pos |-> 0, cb |-> 0, rc |-> "ok", ret |-> "", ev |-> <<>>, logs |-> <<>>,
  oracle |-> <<>>]

Then(p, F(_)) == IF p.rc = "ok" THEN F(p) ELSE p
Rc(p, rc) == [p EXCEPT !.rc = rc]

LevelRank == [NONE |-> 0, ERROR |-> 1, WARNING |-> 2, NOTICE |-> 3, INFO |-> 4, DEBUG |-> 5, DEBUG2 |-> 6]
AddLogs(p, ls) == IF ls = <<>> THEN p
                  ELSE [p EXCEPT !.logs = @ \o SelectSeq(ls, LAMBDA l : LevelRank[l.l] <= LevelRank[p.cfg.log_level])]

RpRank == [NOT_STARTED |-> 0, LINE |-> 1, HEADERS |-> 2, BODY |-> 3, TRAILER |-> 4, COMPLETE |-> 5, ERROR |-> 6, GAP |-> 7]
Started(t) == ~(t.rp = "NOT_STARTED" /\ t.sp = "NOT_STARTED")
Complete(t) == t.rp = "COMPLETE" /\ t.sp = "COMPLETE"
(* transactions come into being when first looked at, within the limit *)
Touch(p, i) == IF i \in DOMAIN p.txs THEN p
               ELSE IF Cardinality(DOMAIN p.txs) >= p.cfg.max_tx THEN Rc(p, "ERROR")
               ELSE [p EXCEPT !.txs = (i :> BlankTx(i)) @@ @]
Drop(p, i) == [p EXCEPT !.txs = [j \in DOMAIN @ \ {i} |-> @[j]]]
TouchR(p) == Touch(p, p.ri)
TouchS(p) == Touch(p, p.si)
R(p) == p.txs[p.ri]
S(p) == p.txs[p.si]
FlagR(p, fl) == [p EXCEPT !.txs[p.ri].flags = @ \cup fl]
FlagS(p, fl) == [p EXCEPT !.txs[p.si].flags = @ \cup fl]

------------------------------------------------------------------------------
(* Input of the call *)
Rest(p) == From(p.in, p.pos + 1)
InLen(p) == IF p.gap >= 0 THEN Max2(p.gap - p.pos, 0) ELSE Max2(Len(p.in) - p.pos, 0)
Consume(p, n) == [p EXCEPT !.pos = @ + n]
ConsumeAll(p) == Consume(p, InLen(p))
Unconsume(p, n) == [p EXCEPT !.pos = Max2(@ - n, 0)]
(* the line of d up to and including the first LF, 0 if none *)
LfLen(d) == FindB(d, 1, LF)

------------------------------------------------------------------------------
(* Callbacks.  An event carries the hook, which of its callbacks (w), the
   transaction and its progress at that moment.  Verdicts are part of the
   environment: p.vd lists [h, w, n, ret], n the how-manieth run (0 = all).   *)
Event(p, h, w, i, k, d) ==
  LET t == p.txs[i] IN
  IF k = "tx" THEN [h |-> h, w |-> w, i |-> i, rp |-> t.rp, sp |-> t.sp]
  ELSE IF k = "data" THEN [h |-> h, w |-> w, i |-> i, rp |-> t.rp, sp |-> t.sp, k |-> k, d |-> d]
  ELSE IF k = "gap" THEN [h |-> h, w |-> w, i |-> i, rp |-> t.rp, sp |-> t.sp, k |-> k, n |-> d]
  ELSE [h |-> h, w |-> w, i |-> i, rp |-> t.rp, sp |-> t.sp, k |-> k]
AddEvent(p, e) ==
  LET n == Len(p.ev)
      l == IF n = 0 THEN e ELSE p.ev[n]
      merge == n > 0 /\ "k" \in DOMAIN e /\ "k" \in DOMAIN l /\ l.h = e.h /\ l.w = e.w /\ l.i = e.i /\ l.k = e.k
               /\ l.rp = e.rp /\ l.sp = e.sp
  IN IF ~merge THEN [p EXCEPT !.ev = Append(@, e)]
     ELSE IF e.k = "data" THEN [p EXCEPT !.ev[n].d = @ \o e.d]
     ELSE IF e.k = "gap" THEN [p EXCEPT !.ev[n].n = @ + e.n]
     ELSE p
RunCb(p, h, w, i, k, d) ==
  LET q == AddEvent(p, Event(p, h, w, i, k, d))
      q1 == IF p.cfg.txhook /\ w = 1 /\ h = "request_headers" THEN [q EXCEPT !.txs[i].rtxh = TRUE]
            ELSE IF p.cfg.txhook /\ w = 1 /\ h = "response_headers" THEN [q EXCEPT !.txs[i].stxh = TRUE] ELSE q
      key == <<h, w>>
      c == (IF key \in DOMAIN p.cnt THEN p.cnt[key] ELSE 0) + 1
      m == SelectSeq(p.vd, LAMBDA v : v.h = h /\ v.w = w /\ (v.n = c \/ v.n = 0))
      ret == IF m = <<>> THEN "OK" ELSE m[1].ret
  IN IF p.vd = <<>> THEN q1
     ELSE [q1 EXCEPT !.cnt = (key :> c) @@ @, !.rc = IF ret \in {"OK", "DECLINED"} THEN "ok" ELSE ret]
RunHook(p, h, i, k, d) ==
  IF i \notin DOMAIN p.txs \/ (k = "data" /\ d = <<>>) THEN p
  ELSE LET a == RunCb(p, h, 1, i, k, d) IN IF a.rc # "ok" \/ ~p.cfg.two THEN a ELSE RunCb(a, h, 2, i, k, d)
TxHook(p, h, i) == RunHook(p, h, i, "tx", <<>>)
Ignore(p) == Rc(p, "ok")

(* raw header and trailer data: everything consumed since the receiver was set *)
SendR(p) ==
  LET d == IF p.hasdata /\ p.pos <= Len(p.in) /\ p.cb <= p.pos THEN SubSeq(p.in, p.cb + 1, p.pos) ELSE <<>>
      q == TouchR([p EXCEPT !.cb = IF p.hasdata THEN p.pos ELSE @])
  IN IF q.rc # "ok" \/ p.rrcv = "none" THEN q ELSE RunHook(q, p.rrcv, p.ri, "data", d)
SendS(p) ==
  LET d == IF p.hasdata /\ p.pos <= Len(p.in) /\ p.cb <= p.pos THEN SubSeq(p.in, p.cb + 1, p.pos) ELSE <<>>
      q == TouchS([p EXCEPT !.cb = IF p.hasdata THEN p.pos ELSE @])
  IN IF q.rc # "ok" \/ p.srcv = "none" THEN q ELSE RunHook(q, p.srcv, p.si, "data", d)
ClearRcvR(p) == IF p.rrcv = "none" THEN p ELSE [SendR(p) EXCEPT !.rrcv = "none"]
ClearRcvS(p) == IF p.srcv = "none" THEN p ELSE [SendS(p) EXCEPT !.srcv = "none"]

StateChangeR(p) ==
  IF p.rpv = p.rst THEN p
  ELSE IF p.rst # "HEADERS" THEN [p EXCEPT !.rpv = p.rst]
  ELSE Then(TouchR(p), LAMBDA q : [q EXCEPT !.rpv = q.rst, !.cb = q.pos,
         !.rrcv = IF R(q).rp = "HEADERS" THEN "request_header_data" ELSE IF R(q).rp = "TRAILER" THEN "request_trailer_data" ELSE @])
StateChangeS(p) ==
  IF p.spv = p.sst THEN p
  ELSE IF p.sst # "HEADERS" THEN [p EXCEPT !.spv = p.sst]
  ELSE Then(TouchS(p), LAMBDA q : [q EXCEPT !.spv = q.sst, !.cb = q.pos,
         !.srcv = IF S(q).sp = "HEADERS" THEN "response_header_data" ELSE IF S(q).sp = "TRAILER" THEN "response_trailer_data" ELSE @])

LimitR(p, n) == IF n > 0 /\ Len(p.rbuf) + n + (IF p.rhdr = <<>> THEN 0 ELSE Len(p.rhdr[1])) > p.cfg.field_limit
                THEN Rc(AddLogs(p, Error("REQUEST_FIELD_TOO_LONG")), "ERROR") ELSE p
LimitS(p, n) == IF n > 0 /\ Len(p.sbuf) + n + (IF p.shdr = <<>> THEN 0 ELSE Len(p.shdr[1])) > p.cfg.field_limit
                THEN Rc(AddLogs(p, Error("RESPONSE_FIELD_TOO_LONG")), "ERROR") ELSE p
AbsentLfR(p) == Then(LimitR(p, InLen(p)), LAMBDA q : Rc(ConsumeAll([q EXCEPT !.rbuf = @ \o Rest(q)]), "DATA_BUFFER"))
AbsentLfS(p) == Then(LimitS(p, InLen(p)), LAMBDA q : Rc(ConsumeAll([q EXCEPT !.sbuf = @ \o Rest(q)]), "DATA_BUFFER"))

------------------------------------------------------------------------------
(* Headers of a transaction: sequences of [n, v, f] *)
Lookup(hs, key) == LET k == {i \in 1..Len(hs) : EqNameNoZero(hs[i].n, key)}    \* 0 if absent
                   IN IF k = {} THEN 0 ELSE CHOOSE i \in k : \A j \in k : i <= j
LookupExact(hs, name) == LET k == {i \in 1..Len(hs) : EqName(hs[i].n, name)}
                         IN IF k = {} THEN 0 ELSE CHOOSE i \in k : \A j \in k : i <= j
SameCl(a, b) == LET D(d) == StripZeros([i \in 1..Len(AsciiDigits(d).digits) |-> AsciiDigits(d).digits[i] - 48])
                IN ContentLength(a).n # NONE /\ ContentLength(b).n # NONE /\ D(a) = D(b)

(* add one header to a list: [hs, reps, logs] *)
AddHeader(hs, reps, h, cllog, replog) ==
  LET e == LookupExact(hs, h.n)
      seen == "FIELD_REPEATED" \in hs[e].f
      cl == EqNoCase(h.n, B("content-length"))
      h2 == [hs[e] EXCEPT !.f = @ \cup {"FIELD_REPEATED"}, !.v = IF cl THEN @ ELSE @ \o B(", ") \o h.v]
  IN IF e = 0 THEN [hs |-> Append(hs, h), reps |-> reps, logs |-> <<>>]
     ELSE IF seen /\ reps >= 64 THEN [hs |-> hs, reps |-> reps, logs |-> <<>>]
     ELSE [hs |-> [hs EXCEPT ![e] = h2], reps |-> IF seen THEN reps + 1 ELSE reps,
           logs |-> (IF cl /\ ~SameCl(hs[e].v, h.v) THEN Warn(cllog) ELSE <<>>)
                    \o (IF seen THEN <<>> ELSE Warn(replog))]

(* the anomalies of a parsed header, in order: <<code, transaction flag, further header flags>> *)
ReqAnomalies(h) ==
  (IF "NAME_TRAILING_WHITESPACE" \in h.nfl THEN <<<<"REQUEST_INVALID_LWS_AFTER_NAME", "FIELD_INVALID", {}>>>> ELSE <<>>)
  \o (IF "NAME_LEADING_WHITESPACE" \in h.nfl THEN <<<<"INVALID_REQUEST_FIELD_FOLDING", "INVALID_FOLDING", {}>>>> ELSE <<>>)
  \o (IF "NAME_NON_TOKEN_CHARS" \in h.nfl THEN <<<<"REQUEST_HEADER_INVALID", "FIELD_INVALID", {}>>>> ELSE <<>>)
  \o (IF "MISSING_COLON" \in h.nfl THEN <<<<"REQUEST_FIELD_MISSING_COLON", "FIELD_UNPARSEABLE", {}>>>>
      ELSE IF "NAME_EMPTY" \in h.nfl THEN <<<<"REQUEST_INVALID_EMPTY_NAME", "FIELD_INVALID", {}>>>> ELSE <<>>)
RespAnomalies(h) ==
  (IF "NAME_TRAILING_WHITESPACE" \in h.nfl THEN <<<<"RESPONSE_INVALID_LWS_AFTER_NAME", "FIELD_INVALID", {}>>>> ELSE <<>>)
  \o (IF "NAME_LEADING_WHITESPACE" \in h.nfl THEN <<<<"INVALID_RESPONSE_FIELD_FOLDING", "INVALID_FOLDING", {"FIELD_INVALID"}>>>> ELSE <<>>)
  \o (IF "NAME_NON_TOKEN_CHARS" \in h.nfl THEN <<<<"RESPONSE_HEADER_NAME_NOT_TOKEN", "FIELD_INVALID", {}>>>> ELSE <<>>)
  \o (IF "MISSING_COLON" \in h.nfl THEN <<<<"RESPONSE_FIELD_MISSING_COLON", "FIELD_UNPARSEABLE", {"FIELD_INVALID"}>>>>
      ELSE IF "NAME_EMPTY" \in h.nfl THEN <<<<"RESPONSE_INVALID_EMPTY_NAME", "FIELD_INVALID", {}>>>> ELSE <<>>)
(* logged once per transaction and flag *)
RECURSIVE WarnOnce(_, _)
WarnOnce(an, flags) == IF an = <<>> THEN <<>>
  ELSE (IF an[1][2] \in flags THEN <<>> ELSE Warn(an[1][1])) \o WarnOnce(Tail(an), flags \cup {an[1][2]})
TxFlagsOf(an) == {an[i][2] : i \in 1..Len(an)}
HdrFlagsOf(an) == TxFlagsOf(an) \cup UNION {an[i][3] : i \in 1..Len(an)}

RECURSIVE AddReqHeaders(_, _)
AddReqHeaders(p, hs) ==
  IF hs = <<>> THEN p
  ELSE LET an == ReqAnomalies(hs[1])
           t == R(p)
           a == AddHeader(t.rh, t.rreps, [n |-> hs[1].n, v |-> hs[1].v, f |-> HdrFlagsOf(an)],
                          "DUPLICATE_CONTENT_LENGTH_FIELD_IN_REQUEST", "REQUEST_HEADER_REPETITION")
           q == AddLogs([p EXCEPT !.txs[p.ri] = [t EXCEPT !.rh = a.hs, !.rreps = a.reps, !.flags = @ \cup TxFlagsOf(an)]],
                        WarnOnce(an, t.flags) \o a.logs)
       IN AddReqHeaders(q, Tail(hs))
RECURSIVE AddRespHeaders(_, _)
AddRespHeaders(p, hs) ==
  IF hs = <<>> THEN p
  ELSE LET an == RespAnomalies(hs[1])
           t == S(p)
           a == AddHeader(t.sh, t.sreps, [n |-> hs[1].n, v |-> hs[1].v, f |-> HdrFlagsOf(an)],
                          "DUPLICATE_CONTENT_LENGTH_FIELD_IN_RESPONSE", "RESPONSE_HEADER_REPETITION")
           eol == "DEFORMED_EOL" \in (hs[1].nfl \cup hs[1].vfl)
           q == AddLogs([p EXCEPT !.txs[p.si] = [t EXCEPT !.sh = a.hs, !.sreps = a.reps, !.flags = @ \cup TxFlagsOf(an)]],
                        (IF eol THEN Warn("DEFORMED_EOL") ELSE <<>>) \o WarnOnce(an, t.flags) \o a.logs)
       IN AddRespHeaders(q, Tail(hs))
(* parse a piece of a header block: [p, rem (bytes left over), eoh] *)
ParseReqBlock(p, d) ==
  LET x == ParseHeaders("req", R(p).rcompl, d)
  IN IF x.k = "ok" THEN [p |-> AddReqHeaders(p, x.hs), rem |-> Len(d) - x.p + 1, eoh |-> x.eoh]
     ELSE [p |-> p, rem |-> Len(d), eoh |-> FALSE]
ParseRespBlock(p, d) ==
  LET x == ParseHeaders("resp", S(p).scompl, d)
  IN IF x.k = "ok" THEN [p |-> AddRespHeaders(p, x.hs), rem |-> Len(d) - x.p + 1, eoh |-> x.eoh]
     ELSE [p |-> p, rem |-> Len(d), eoh |-> FALSE]

------------------------------------------------------------------------------
(* Content encodings: [ce, cep, layers (outermost first), logs] *)
Encodings == [gzip |-> "GZIP", deflate |-> "DEFLATE", lzma |-> "LZMA"]
RECURSIVE CeList(_, _, _, _, _)
CeList(cfg, toks, n, nlz, toolog) ==   \* <<layers, logs>> of the list form
  IF toks = <<>> THEN <<<<>>, <<>>>>
  ELSE LET t == toks[1]
           Cont(ly, lg, z) == LET r == CeList(cfg, Tail(toks), n + 1, z, toolog) IN <<ly \o r[1], lg \o r[2]>>
       IN IF t = <<>> THEN CeList(cfg, Tail(toks), n, nlz, toolog)
          ELSE IF cfg.layer_limit # -1 /\ n + 1 > cfg.layer_limit THEN <<<<>>, Warn("TOO_MANY_ENCODING_LAYERS")>>
          ELSE IF ContainsNoCase(t, B("gzip"))
          THEN Cont(<<"GZIP">>, IF t = B("gzip") \/ t = B("x-gzip") THEN <<>> ELSE Warn("ABNORMAL_CE_HEADER"), nlz)
          ELSE IF ContainsNoCase(t, B("deflate"))
          THEN Cont(<<"DEFLATE">>, IF t = B("deflate") \/ t = B("x-deflate") THEN <<>> ELSE Warn("ABNORMAL_CE_HEADER"), nlz)
          ELSE IF t = B("lzma")
          THEN IF cfg.lzma_layers # -1 /\ nlz + 1 > cfg.lzma_layers THEN <<<<>>, Warn(toolog)>>
               ELSE Cont(<<"LZMA">>, <<>>, nlz + 1)
          ELSE Cont(<<>>, IF t = B("inflate") \/ t = B("none") THEN <<>> ELSE Warn("ABNORMAL_CE_HEADER"), nlz)
ContentEncoding(cfg, enabled, hs, toolog) ==
  LET i == Lookup(hs, B("content-encoding"))
      v == LowerSeq(NoZero(hs[i].v))
      one == IF i = 0 THEN "NONE"
             ELSE IF v = B("gzip") \/ v = B("x-gzip") THEN "GZIP"
             ELSE IF v = B("deflate") \/ v = B("x-deflate") THEN "DEFLATE"
             ELSE IF v = B("lzma") THEN "LZMA" ELSE "NONE"
      slow == i # 0 /\ enabled /\ one = "NONE" /\ v # B("inflate") /\ v # B("none")
      toks == SplitOn([k \in 1..Len(hs[i].v) |-> IF hs[i].v[k] = SP THEN COMMA ELSE hs[i].v[k]], COMMA)
      l == CeList(cfg, toks, 0, 0, toolog)
  IN IF ~enabled THEN [ce |-> one, cep |-> "NONE", layers |-> <<>>, logs |-> <<>>]
     ELSE IF one # "NONE" THEN [ce |-> one, cep |-> one, layers |-> <<one>>, logs |-> <<>>]
     ELSE IF slow THEN [ce |-> one, cep |-> IF l[1] = <<>> THEN "NONE" ELSE l[1][1], layers |-> l[1], logs |-> l[2]]
     ELSE [ce |-> one, cep |-> "NONE", layers |-> <<>>, logs |-> <<>>]
(* output exceeding the limit and the ratio *)
Bomb(cfg, out, in) == out > cfg.bomb_limit /\ (in = 0 \/ out \div in > cfg.bomb_ratio \/ (out \div in = cfg.bomb_ratio /\ out % in > 0))

------------------------------------------------------------------------------
(* Body data.  k: "data" or "end".  Behind a content encoding the data goes to
   the decompressors, whose output is p.oracle[<<side, i, rp, sp>>]: what they
   give out for transaction i during this call while it is at that progress.   *)
BodyHookR(p, k, d) ==
  IF k = "data" /\ d = <<>> THEN p
  ELSE LET a == IF R(p).rtxh THEN RunCb(p, "tx_request_body_data", 1, p.ri, k, d) ELSE p
       IN Then(a, LAMBDA q : RunHook(q, "request_body_data", q.ri, k, d))
BodyHookS(p, k, d) ==
  IF k = "end" \/ (k = "data" /\ d = <<>>) \/ (k = "gap" /\ d = 0) THEN p
  ELSE LET a == IF S(p).stxh THEN RunCb(p, "tx_response_body_data", 1, p.si, k, d) ELSE p
       IN Then(a, LAMBDA q : RunHook(q, "response_body_data", q.si, k, d))

OracleOf(p, key) == IF key \in DOMAIN p.oracle THEN p.oracle[key] ELSE <<>>
DecompressR(p, d) ==
  LET key == <<"r", p.ri, R(p).rp, R(p).sp>>
      o == OracleOf(p, key)
      q == BodyHookR([p EXCEPT !.oracle = (key :> <<>>) @@ @, !.txs[p.ri].rel = @ + Len(o)], "data", o)
  IN IF q.rc # "ok" THEN [q EXCEPT !.rc = "ERROR", !.txs[q.ri].rdec = FALSE]
     ELSE IF o # <<>> /\ Bomb(p.cfg, R(q).rel, R(q).rml)
     THEN [AddLogs(q, Error("COMPRESSION_BOMB")) EXCEPT !.rc = "ERROR", !.txs[q.ri].rdec = FALSE]
     ELSE q
DecompressS(p, d) ==
  LET key == <<"s", p.si, S(p).rp, S(p).sp>>
      o == OracleOf(p, key)
      q == BodyHookS([p EXCEPT !.oracle = (key :> <<>>) @@ @, !.txs[p.si].sel = @ + Len(o)], "data", o)
  IN IF q.rc # "ok" THEN [q EXCEPT !.rc = "ERROR", !.txs[q.si].sdec = FALSE]
     ELSE IF o # <<>> /\ Bomb(p.cfg, S(q).sel, S(q).sml)
     THEN [AddLogs(q, Error("COMPRESSION_BOMB")) EXCEPT !.rc = "ERROR", !.txs[q.si].sdec = FALSE]
     ELSE q

BodyR(p0, k, d) ==
  Then(TouchR(p0), LAMBDA p :
    IF R(p).rcep = "NONE"
    THEN LET q == BodyHookR([p EXCEPT !.txs[p.ri].rml = @ + Len(d), !.txs[p.ri].rel = @ + Len(d)], k, d)
         IN IF q.rc = "ok" THEN q ELSE AddLogs(q, Error("REQUEST_BODY_DATA_CALLBACK_ERROR"))
    ELSE IF ~R(p).rdec THEN IF k = "end" THEN p ELSE Rc([p EXCEPT !.txs[p.ri].rml = @ + Len(d)], "ERROR")
    ELSE IF k = "end"
    THEN LET a == DecompressR(p, d)     \* the end is passed on unless the compressed data was incomplete
         IN [Ignore(IF a.rc = "ok" /\ OracleOf(p, <<"e", p.ri>>) # <<>> THEN BodyHookR(a, "end", <<>>) ELSE a) EXCEPT !.txs[p.ri].rdec = FALSE]
    ELSE DecompressR([p EXCEPT !.txs[p.ri].rml = @ + Len(d)], d))
BodyS(p0, k, d) ==
  Then(TouchS(p0), LAMBDA p :
    IF S(p).scep = "NONE"
    THEN BodyHookS([p EXCEPT !.txs[p.si].sml = @ + Len(d), !.txs[p.si].sel = @ + Len(d)], k, d)
    ELSE IF ~S(p).sdec THEN IF k = "end" THEN p ELSE Rc([p EXCEPT !.txs[p.si].sml = @ + Len(d)], "ERROR")
    ELSE IF k = "end" THEN [Ignore(DecompressS(p, d)) EXCEPT !.txs[p.si].sdec = FALSE]
    ELSE DecompressS([p EXCEPT !.txs[p.si].sml = @ + Len(d)], d))

------------------------------------------------------------------------------
(* Completion *)
FreeTx(p, i) == IF p.cfg.auto_destroy /\ (i \notin DOMAIN p.txs \/ Complete(p.txs[i])) THEN Drop(p, i) ELSE p
(* the next request: transactions of responses that came without one are passed over *)
NextR(p) ==
  LET a == FreeTx(p, p.ri)
      taken(i) == i < a.si \/ (i \in DOMAIN a.txs /\ a.txs[i].rp = "COMPLETE")
      free == {i \in (p.ri + 1)..(Max2(p.ri, p.si) + 2) : ~taken(i)}
  IN [a EXCEPT !.pipe = @ \/ p.ri > p.si, !.ri = CHOOSE i \in free : \A j \in free : i <= j]
NextS(p) == [FreeTx(p, p.si) EXCEPT !.si = @ + 1]
Finalize(p, i) == IF i \in DOMAIN p.txs /\ Complete(p.txs[i]) THEN TxHook(p, "transaction_complete", i) ELSE p

CompleteR(p0) ==
  Then(TouchR(p0), LAMBDA p :
    LET a == IF R(p).rp = "COMPLETE" THEN p
             ELSE Then(IF R(p).rtc \in {"IDENTITY", "CHUNKED"} THEN BodyR(p, "end", <<>>) ELSE p, LAMBDA q :
                  Then(TxHook([q EXCEPT !.txs[q.ri].rp = "COMPLETE"], "request_complete", q.ri), ClearRcvR))
    IN Then(a, LAMBDA q :
       Then(Finalize([q EXCEPT !.rst = IF R(q).p09 THEN "IGNORE_0_9" ELSE "IDLE"], q.ri), LAMBDA x :
       \* a complete response that waited for this request is done with as well
       NextR(IF x.si = x.ri /\ x.txs[x.si].sp = "COMPLETE" THEN [NextS(x) EXCEPT !.sst = "IDLE"] ELSE x))))
CompleteS(p0) ==
  Then(TouchS(p0), LAMBDA p :
    LET a == IF S(p).sp = "COMPLETE" THEN p
             ELSE LET b == [p EXCEPT !.txs[p.si].sp = "COMPLETE"]
                      c == IF S(b).stc # "NO_BODY" THEN Ignore(BodyS(b, "end", <<>>)) ELSE b
                  IN Then(TxHook(c, "response_complete", c.si), ClearRcvS)
    IN Then(a, LAMBDA q :
       IF q.ss = "DATA_OTHER" /\ q.si = q.ri THEN Rc(q, "DATA_OTHER")
       ELSE IF q.other THEN Rc([q EXCEPT !.other = FALSE], "DATA_OTHER")
       ELSE Then(Finalize(q, q.si), LAMBDA x : [NextS(x) EXCEPT !.sst = "IDLE"])))

------------------------------------------------------------------------------
(* Request parser: one operator per state *)
RIdle(p) ==
  IF InLen(p) = 0 /\ (p.rs # "CLOSED" \/ p.rbuf = <<>>) THEN Rc(p, "DATA")
  ELSE LET q == TouchR([p EXCEPT !.rcl = -1, !.rleft = -1, !.cri = p.cc, !.rst = "LINE"])
       IN IF q.rc # "ok" THEN Rc(p, "ERROR")    \* no more transactions than allowed
          ELSE Ignore(TxHook([q EXCEPT !.txs[q.ri].rp = "LINE"], "request_start", q.ri))

ConnectUri(u) == LET h == HostPort(u) IN
  [u |-> IF h.ok THEN [NoUri EXCEPT !.host = <<LowerSeq(h.host)>>, !.port = h.port, !.portn = h.portn] ELSE NoUri,
   fl |-> IF h.ok /\ ~h.valid THEN {"HOSTU_INVALID"} ELSE {}]
ParamEvents(c, q) == LET u == UrlComplete(c, q) IN [i \in 1..Len(u.params) |-> [h |-> "param", n |-> u.params[i].n, v |-> u.params[i].v]]
StateRequestLine(p) ==
  LET t == R(p)
      conn == t.meth = "CONNECT"
      raw == IF conn THEN ConnectUri(t.uri[1])
             ELSE [u |-> IF t.uri = <<>> THEN NoUri ELSE ParseUri(t.uri[1]), fl |-> {}]
      nz == IF t.puri # <<>> THEN [u |-> t.puri[1], fl |-> {}, code |-> 0, haspath |-> FALSE] ELSE NormalizeUri(p.cfg, raw.u)
      utf8 == nz.haspath /\ "PATH_UTF8_INVALID" \in t.flags \cup nz.fl
      bad == nz.u.host # <<>> /\ ~ValidHostname(nz.u.host[1])
      a == [p EXCEPT !.txs[p.ri] = [t EXCEPT !.rawuri = <<raw.u>>, !.puri = <<nz.u>>,
              !.exp = Or(Or(@, nz.code), IF utf8 THEN p.cfg.utf8_unwanted ELSE 0),
              !.flags = @ \cup raw.fl \cup nz.fl \cup (IF bad THEN {"HOSTU_INVALID"} ELSE {})],
              !.ev = IF p.cfg.parse_urlencoded /\ nz.u.query # <<>> THEN @ \o ParamEvents(p.cfg, nz.u.query[1]) ELSE @]
      us == UriStrings(p.cfg, nz.u)
  IN IF conn /\ t.uri = <<>> THEN Rc(p, "ERROR")
     ELSE Then(TxHook(a, "request_uri_normalize", a.ri), LAMBDA b :
          Then(TxHook(b, "request_line", b.ri), LAMBDA c :
            AddLogs([c EXCEPT !.txs[c.ri].nuri = us.nuri, !.txs[c.ri].cnuri = us.cnuri, !.rst = "PROTOCOL"], us.logs)))
ParseRequestLine(p, d) ==
  LET x == RequestLine(p.cfg, d)
      t == R(p)
  IN AddLogs([p EXCEPT !.txs[p.ri] = [t EXCEPT !.rline = <<d>>, !.exp = Or(@, x.exp), !.method = x.method,
                !.meth = x.meth, !.uri = IF x.uri = <<>> THEN @ ELSE x.uri, !.rprotos = IF x.rprotos = <<>> THEN @ ELSE x.rprotos,
                !.p09 = @ \/ x.p09, !.rproto = x.rproto]], x.logs)
RLineComplete(p, line) ==
  Then(LimitR(p, Len(line)), LAMBDA a :
    IF line = <<>> THEN Rc(a, "DATA")
    ELSE Then(TouchR(a), LAMBDA b :
      IF IgnorableLine(line) THEN [b EXCEPT !.txs[b.ri].rign = @ + 1]
      ELSE StateRequestLine(ParseRequestLine(b, Chomp(line)))))
RLine(p) ==
  LET d == Rest(p)
      n == LfLen(d)
  IN IF n # 0 THEN RLineComplete(Consume([p EXCEPT !.rbuf = <<>>], n), p.rbuf \o Upto(d, n))
     ELSE IF p.rs = "CLOSED" THEN RLineComplete(ConsumeAll([p EXCEPT !.rbuf = <<>>]), p.rbuf \o d)
     ELSE AbsentLfR(p)

RProtocol(p0) ==
  Then(TouchR(p0), LAMBDA p :
    LET d == Rest(p)
        k == Skip(d, 1, IsSpace)
    IN IF ~R(p).p09 THEN [p EXCEPT !.txs[p.ri].rp = "HEADERS", !.rst = "HEADERS"]
       ELSE IF k <= Len(d) \/ Len(d) > 16
       THEN AddLogs([p EXCEPT !.txs[p.ri].p09 = FALSE, !.txs[p.ri].rp = "HEADERS", !.rst = "HEADERS"], Warn("REQUEST_LINE_NO_PROTOCOL"))
       ELSE [p EXCEPT !.rst = "FINALIZE"])

(* what the headers of a request mean *)
ProcessHeaders(p) ==
  LET t == R(p)
      hs == t.rh
      te == Lookup(hs, B("transfer-encoding"))
      cl == Lookup(hs, B("content-length"))
      ho == Lookup(hs, B("host"))
      ct == Lookup(hs, B("content-type"))
      au == Lookup(hs, B("authorization"))
      old == ProtoRank[t.rproto] < ProtoRank["V1_1"]
      chunked == te # 0 /\ ContainsNoCaseNoZero(hs[te].v, B("chunked"))
      len == IF te = 0 /\ cl # 0 THEN ContentLength(hs[cl].v) ELSE [n |-> NONE, logs |-> <<>>]
      t1 == IF te # 0
            THEN IF ~chunked THEN [t EXCEPT !.rtc = "INVALID", !.flags = @ \cup {"REQUEST_INVALID_T_E", "REQUEST_INVALID"}]
                 ELSE [t EXCEPT !.rtc = "CHUNKED",
                         !.flags = @ \cup (IF old THEN {"REQUEST_INVALID_T_E", "REQUEST_SMUGGLING"} ELSE {})
                                     \cup (IF cl # 0 THEN {"REQUEST_SMUGGLING"} ELSE {})]
            ELSE IF cl # 0
            THEN [t EXCEPT !.rcl = len.n, !.rtc = IF len.n = NONE THEN "INVALID" ELSE "IDENTITY",
                    !.flags = @ \cup (IF "FIELD_REPEATED" \in hs[cl].f \/ "FIELD_FOLDED" \in hs[cl].f THEN {"REQUEST_SMUGGLING"} ELSE {})
                                \cup (IF len.n = NONE THEN {"REQUEST_INVALID_C_L", "REQUEST_INVALID"} ELSE {})]
            ELSE [t EXCEPT !.rtc = "NO_BODY"]
      uh == IF t.puri = <<>> THEN <<>> ELSE t.puri[1].host
      up == IF t.puri = <<>> THEN -1 ELSE t.puri[1].portn
      h0 == IF uh # <<>> THEN uh ELSE t.host
      p0 == IF up # -1 THEN up ELSE t.port
      hp == HostPort(hs[ho].v)
      t2 == IF ho = 0
            THEN [t1 EXCEPT !.host = h0, !.port = p0, !.flags = @ \cup (IF old THEN {} ELSE {"HOST_MISSING"})]
            ELSE IF ~hp.ok
            THEN [t1 EXCEPT !.host = h0, !.port = p0, !.flags = @ \cup (IF h0 # <<>> THEN {"HOST_AMBIGUOUS"} ELSE {})]
            ELSE IF h0 = <<>>
            THEN [t1 EXCEPT !.host = <<LowerSeq(hp.host)>>, !.port = IF hp.port # <<>> THEN hp.portn ELSE p0,
                    !.flags = @ \cup (IF hp.valid THEN {} ELSE {"HOSTH_INVALID"})]
            ELSE [t1 EXCEPT !.host = h0, !.port = p0,
                    !.flags = @ \cup (IF hp.valid THEN {} ELSE {"HOSTH_INVALID"})
                                \cup (IF ~EqNoCase(h0[1], hp.host) \/ (hp.port # <<>> /\ p0 # -1 /\ p0 # hp.portn)
                                      THEN {"HOST_AMBIGUOUS"} ELSE {})]
      cty == ReqContentType(hs[ct].v)
      a == Authorization(hs[au].v)
      t3 == IF ct = 0 THEN t2 ELSE [t2 EXCEPT !.rct = <<cty.v>>]
      t4 == IF ~p.cfg.parse_auth THEN t3
            ELSE IF au = 0 THEN [t3 EXCEPT !.auth = "NONE"]
            ELSE [t3 EXCEPT !.auth = a.auth, !.auser = a.auser, !.apass = a.apass, !.atok = a.atok,
                    !.flags = @ \cup (IF a.ok THEN {} ELSE {"AUTH_INVALID"})]
  IN IF ct # 0 /\ ~cty.ok THEN Rc(AddLogs([p EXCEPT !.txs[p.ri] = t2], len.logs), "ERROR")
     ELSE AddLogs([p EXCEPT !.txs[p.ri] = t4], len.logs)
InitDecompR(p) ==
  LET x == ContentEncoding(p.cfg, p.cfg.req_decomp, R(p).rh, "REQUEST_TOO_MANY_LZMA_LAYERS")
  IN AddLogs([p EXCEPT !.txs[p.ri].rce = x.ce, !.txs[p.ri].rcep = x.cep, !.txs[p.ri].rlayers = x.layers, !.txs[p.ri].rdec = x.layers # <<>>], x.logs)
StateRequestHeaders(p0) ==
  Then(ClearRcvR(p0), LAMBDA p1 : Then(TouchR(p1), LAMBDA p :
    IF RpRank[R(p).rp] > 2 THEN Then(TxHook(p, "request_trailer", p.ri), LAMBDA q : [q EXCEPT !.rst = "FINALIZE"])
    ELSE IF RpRank[R(p).rp] >= 1
    THEN Then(ProcessHeaders(IF p.cc # p.cri THEN FlagR(p, {"MULTI_PACKET_HEAD"}) ELSE p), LAMBDA a :
         Then(TxHook(a, "request_headers", a.ri), LAMBDA b :
         Then(TouchR(b), LAMBDA c : [InitDecompR(c) EXCEPT !.rst = "CONNECT_CHECK"])))
    ELSE Rc(AddLogs(p, Warn("RESPONSE_BODY_INTERNAL_ERROR")), "ERROR")))
RHeaders(p) ==
  LET d == Rest(p)
      buffered == IF p.rhdr = <<>> THEN 0 ELSE Len(p.rhdr[1])
      all == IF p.rhdr = <<>> THEN d ELSE p.rhdr[1] \o d
      eol == IF Starts(all, <<13, 10>>) THEN 2 ELSE IF Starts(all, <<10>>) THEN 1 ELSE 0
      q == TouchR([p EXCEPT !.rhdr = <<>>])
  IN IF p.rs = "CLOSED"
     THEN Then(TouchR(p), LAMBDA a :
          LET b == [a EXCEPT !.txs[a.ri].rcompl = TRUE, !.txs[a.ri].rp = "TRAILER", !.rhdr = <<>>, !.rbuf = <<>>]
          IN StateRequestHeaders(IF a.rhdr = <<>> THEN b ELSE ParseReqBlock(b, a.rhdr[1]).p))
     ELSE IF eol > 0 THEN StateRequestHeaders(Consume([p EXCEPT !.rhdr = <<>>], Max2(eol - buffered, 0)))
     ELSE Then(q, LAMBDA a :
          LET x == ParseReqBlock(a, all) IN
          IF x.eoh THEN StateRequestHeaders(IF x.rem < Len(d) THEN Consume(x.p, Len(d) - x.rem) ELSE x.p)
          ELSE Then(LimitR(Consume(x.p, Len(d)), x.rem), LAMBDA b :
                 Rc([b EXCEPT !.rhdr = <<From(all, Len(all) - x.rem + 1)>>], "DATA_BUFFER")))

RConnectCheck(p0) ==
  Then(TouchR(p0), LAMBDA p :
    IF R(p).meth = "CONNECT" THEN Rc([p EXCEPT !.rst = "CONNECT_WAIT", !.rs = "DATA_OTHER"], "DATA_OTHER")
    ELSE [p EXCEPT !.rst = "BODY_DETERMINE"])
Is2xx(t) == t.status >= 200 /\ t.status <= 299
RConnectWait(p0) ==
  Then(TouchR(p0), LAMBDA p :
    IF RpRank[R(p).sp] <= 1 THEN Rc(p, "DATA_OTHER")
    ELSE [p EXCEPT !.rst = IF Is2xx(R(p)) THEN "CONNECT_PROBE" ELSE "FINALIZE"])
FirstWord(d) == LET a == Skip(d, 1, IsSpace) IN SubSeq(d, a, Skip(d, a, LAMBDA c : ~IsSpace(c)) - 1)
(* a direction that has failed or been stopped does not come back, whatever the other one brings *)
Over(st) == st \in {"ERROR", "STOP"}
RConnectProbe(p) ==
  LET d == Rest(p)
      n == FindP(d, 1, LAMBDA c : c = LF \/ c = 0)
  IN IF n = 0 THEN AbsentLfR(p)
     ELSE Then(IF p.rbuf # <<>> THEN LimitR(p, n) ELSE p, LAMBDA a :
          IF Method(FirstWord(p.rbuf \o Upto(d, n))) = "UNKNOWN" THEN [a EXCEPT !.rs = "TUNNEL", !.ss = IF Over(@) THEN @ ELSE "TUNNEL"]
          ELSE CompleteR(a))

RBodyDetermine(p0) ==
  Then(TouchR(p0), LAMBDA p :
    LET t == R(p)
        pos == t.rcl > 0 \/ t.rcl = BIG
    IN IF t.rtc = "CHUNKED" THEN [p EXCEPT !.txs[p.ri].rp = "BODY", !.rst = "CHUNKED_LENGTH"]
       ELSE IF t.rtc = "IDENTITY"
       THEN [p EXCEPT !.txs[p.ri].rp = IF pos THEN "BODY" ELSE @, !.rcl = t.rcl, !.rleft = t.rcl,
               !.rst = IF pos THEN "BODY_IDENTITY" ELSE "FINALIZE"]
       ELSE IF t.rtc = "NO_BODY" THEN [p EXCEPT !.rst = "FINALIZE"]
       ELSE Rc(p, "ERROR"))
RECURSIVE RChunkedLength(_)
RChunkedLength(p) ==
  LET d == Rest(p)
      n == LfLen(d)
      full == p.rbuf \o Upto(d, n)
      x == ChunkLength(full)
  IN IF n = 0
     THEN IF ~MaybeChunkLength(p.rbuf \o d) THEN Rc(AddLogs(p, Error("INVALID_REQUEST_CHUNK_LEN")), "ERROR") ELSE AbsentLfR(p)
     ELSE Then(IF p.rbuf # <<>> THEN LimitR(Consume(p, n), n) ELSE Consume(p, n), LAMBDA a :
          Then(TouchR([a EXCEPT !.rbuf = <<>>]), LAMBDA b :
            LET c == [b EXCEPT !.txs[b.ri].rml = @ + Len(full)]
                e == IF x.k = "ok" /\ x.ext THEN AddLogs(c, Warn("REQUEST_CHUNK_EXTENSION")) ELSE c
            IN IF full = <<LF>> THEN RChunkedLength(c)
               ELSE IF x.k = "err" THEN Rc(c, "ERROR")
               ELSE IF x.k = "none" THEN Rc(AddLogs([c EXCEPT !.rchunk = -1], Error("INVALID_REQUEST_CHUNK_LEN")), "ERROR")
               ELSE IF x.n = 0 THEN [e EXCEPT !.rchunk = 0, !.rst = "HEADERS", !.txs[e.ri].rp = "TRAILER"]
               ELSE [e EXCEPT !.rchunk = x.n, !.rst = "CHUNKED_DATA"]))
RChunkedData(p) ==
  LET n == Min2(InLen(p), IF p.rchunk < 0 THEN 0 ELSE p.rchunk) IN
  IF n = 0 THEN Rc(p, "DATA")
  ELSE Then(BodyR(p, "data", Upto(Rest(p), n)), LAMBDA q :
       LET a == Consume([q EXCEPT !.rchunk = @ - n], n)
       IN IF a.rchunk = 0 THEN [a EXCEPT !.rst = "CHUNKED_END"] ELSE Rc(a, "DATA"))
RChunkedEnd(p0) ==
  Then(TouchR(p0), LAMBDA p :
    LET n == LfLen(Rest(p)) IN
    IF n # 0 THEN Consume([p EXCEPT !.txs[p.ri].rml = @ + n, !.rst = "CHUNKED_LENGTH"], n)
    ELSE Rc(ConsumeAll([p EXCEPT !.txs[p.ri].rml = @ + InLen(p)]), "DATA"))
Less(left, n) == IF left = BIG THEN BIG ELSE left - n
RIdentity(p) ==
  LET n == IF p.rleft = BIG THEN InLen(p) ELSE Min2(InLen(p), p.rleft)
      a == IF p.gap >= 0 THEN Then(TouchR(p), LAMBDA q : BodyHookR([q EXCEPT !.txs[q.ri].rml = @ + n], "gap", n))
           ELSE BodyR(p, "data", Upto(Rest(p), n))
  IN IF p.rleft = -1 THEN Rc(p, "ERROR")
     ELSE IF n = 0 THEN Rc(p, "DATA")
     ELSE Then(a, LAMBDA q :
          LET b == Consume([q EXCEPT !.rleft = Less(@, n)], n)
          IN IF b.rleft # 0 THEN Rc(b, "DATA") ELSE BodyR([b EXCEPT !.rst = "FINALIZE"], "end", <<>>))
RFinalize(p) ==
  LET d == Rest(p)
      n == LfLen(d)
      work == IF p.rs = "CLOSED" THEN d ELSE Upto(d, n)
      data == p.rbuf \o work
      a == IF p.rs = "CLOSED" THEN p ELSE Consume(p, n)
      m == FirstWord(data)
  IN IF p.gap >= 0 THEN CompleteR(p)
     ELSE IF p.rs # "CLOSED" /\ d = <<>> THEN CompleteR(p)
     ELSE IF p.rs # "CLOSED" /\ n = 0 THEN AbsentLfR(p)
     ELSE Then(IF p.rbuf # <<>> THEN LimitR(a, Len(work)) ELSE a, LAMBDA b :
          LET c == [b EXCEPT !.rbuf = <<>>] IN
          IF data = <<>> THEN CompleteR(c)
          ELSE IF m = <<>> THEN BodyR(c, "data", data)
          ELSE IF Method(m) = "UNKNOWN"
          THEN BodyR(IF c.rleft \in {-1, 0} THEN AddLogs(c, Warn("REQUEST_BODY_UNEXPECTED")) ELSE [c EXCEPT !.rleft = 1], "data", data)
          ELSE CompleteR(Unconsume([c EXCEPT !.rleft = -1, !.rbuf = p.rbuf], Len(data))))
RIgnore09(p) == Rc(ConsumeAll(IF InLen(p) > 0 THEN [p EXCEPT !.ext09 = TRUE] ELSE p), "DATA")

RStep(p) ==
  CASE p.rst = "IDLE" -> RIdle(p)
    [] p.rst = "LINE" -> RLine(p)
    [] p.rst = "PROTOCOL" -> RProtocol(p)
    [] p.rst = "HEADERS" -> RHeaders(p)
    [] p.rst = "CONNECT_CHECK" -> RConnectCheck(p)
    [] p.rst = "CONNECT_WAIT" -> RConnectWait(p)
    [] p.rst = "CONNECT_PROBE" -> RConnectProbe(p)
    [] p.rst = "BODY_DETERMINE" -> RBodyDetermine(p)
    [] p.rst = "CHUNKED_LENGTH" -> RChunkedLength(p)
    [] p.rst = "CHUNKED_DATA" -> RChunkedData(p)
    [] p.rst = "CHUNKED_END" -> RChunkedEnd(p)
    [] p.rst = "BODY_IDENTITY" -> RIdentity(p)
    [] p.rst = "FINALIZE" -> RFinalize(p)
    [] p.rst = "IGNORE_0_9" -> RIgnore09(p)
GapStatesR == {"BODY_IDENTITY", "IGNORE_0_9", "FINALIZE"}
End(p, ret) == [p EXCEPT !.rc = "ok", !.ret = ret]
ROne(p) ==    \* one state after the other, until the call has its result
  IF p.ret # "" THEN p
  ELSE IF p.gap >= 0 /\ p.rst \notin GapStatesR THEN End(AddLogs(p, Error("INVALID_GAP")), "CLOSED")
  ELSE LET a == RStep(p)
           b == IF a.rc = "ok" /\ a.rs # "TUNNEL" THEN StateChangeR(a) ELSE a
       IN IF a.rc = "ok" /\ a.rs = "TUNNEL" THEN End(a, "TUNNEL")
          ELSE CASE b.rc = "ok" -> b
                 [] b.rc \in {"DATA", "DATA_BUFFER"} -> End([SendR(Ignore(b)) EXCEPT !.rs = "DATA"], "DATA")
                 [] b.rc = "DATA_OTHER" -> IF InLen(b) = 0 THEN End([b EXCEPT !.rs = "DATA"], "DATA") ELSE End([b EXCEPT !.rs = "DATA_OTHER"], "DATA_OTHER")
                 [] b.rc = "STOP" -> End([b EXCEPT !.rs = "STOP"], "STOP")
                 [] OTHER -> End([b EXCEPT !.rs = "ERROR"], "ERROR")

(* in groups of some steps: the recursion does not get deep *)
Steps == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12>>
RECURSIVE RLoop(_)
RLoop(p) == LET q == FoldLeft(LAMBDA x, i : ROne(x), p, Steps) IN IF q.ret # "" THEN q ELSE RLoop(q)

(* a data (hasdata), gap (gap >= 0) or closing call *)
Begin(p, d, hasdata, gap) == [p EXCEPT !.in = d, !.hasdata = hasdata, !.gap = gap, !.pos = 0, !.cb = 0, !.rc = "ok", !.ret = ""]
RequestCall(p0, d, hasdata, gap) ==
  LET p == Begin(p0, d, hasdata, gap) IN
  IF p.rs = "STOP" THEN End(AddLogs(p, Info("PARSER_STATE_ERROR")), "STOP")
  ELSE IF p.rs = "ERROR" THEN End(AddLogs(p, Error("PARSER_STATE_ERROR")), "ERROR")
  ELSE IF InLen(p) = 0 /\ p.rs # "CLOSED" THEN End(AddLogs(p, Error("ZERO_LENGTH_DATA_CHUNKS")), "CLOSED")
  ELSE LET a == [p EXCEPT !.cc = @ + 1, !.rcnt = @ + InLen(p)]
           b == IF a.ss = "DATA_OTHER" THEN [a EXCEPT !.ss = "DATA"] ELSE a
           c == TouchR(b)
           e == FlagR(c, {"REQUEST_MISSING_BYTES"})
       IN IF a.rs = "TUNNEL" THEN End(a, "TUNNEL")
          ELSE IF gap < 0 THEN RLoop(b)
          ELSE IF c.rc # "ok" THEN End(c, "ERROR")
          ELSE IF e.ri = 0 /\ R(e).rp = "NOT_STARTED"
          THEN End([e EXCEPT !.txs[e.ri].rp = "GAP", !.rs = "ERROR"], "ERROR")
          ELSE RLoop(e)

------------------------------------------------------------------------------
(* Response parser *)
NotSeen == B("/libhtp::request_uri_not_seen")
StateResponseStart(b) ==
  LET t == S(b)
      c == IF t.p09 THEN [b EXCEPT !.txs[b.si] = [t EXCEPT !.stc = "IDENTITY", !.scep = "NONE", !.sp = "BODY"], !.sst = "STREAM_CLOSE", !.sleft = -1]
           ELSE [b EXCEPT !.txs[b.si].sp = "LINE", !.sst = "LINE"]
  IN Then(TxHook(c, "response_start", c.si), LAMBDA e :
     IF S(e).method = <<>> /\ S(e).uri = <<>> /\ e.rst = "LINE" THEN AddLogs(e, Warn("REQUEST_LINE_INCOMPLETE")) ELSE e)
SIdle(p0) ==
  IF InLen(p0) = 0 THEN Rc(p0, "DATA")
  ELSE Then(TouchS(p0), LAMBDA p :
    LET orphan == AddLogs([p EXCEPT !.txs[p.si].uri = <<NotSeen>>, !.txs[p.si].puri = <<[NoUri EXCEPT !.path = <<NotSeen>>]>>,
                                    !.txs[p.si].rp = "COMPLETE"], Error("UNABLE_TO_MATCH_RESPONSE_TO_REQUEST"))
        a == IF S(p).rp # "NOT_STARTED" THEN p
             ELSE IF p.ri = p.si THEN NextR(orphan) ELSE orphan     \* a request in progress keeps its place
    IN Then(TouchS([a EXCEPT !.scl = -1, !.sleft = -1]), StateResponseStart))

ParseResponseLine(c, line) ==
  LET x == ResponseLine(line)
  IN AddLogs([c EXCEPT !.txs[c.si] = [@ EXCEPT !.sline = <<line>>, !.sprotos = IF x.sprotos = <<>> THEN @ ELSE x.sprotos, !.sproto = x.sproto,
                      !.statuss = x.statuss, !.status = x.status, !.msg = x.msg]], x.logs)
StateResponseLine(c) ==
  LET badp == S(c).sproto = "INVALID"
      bads == S(c).status < 100
      e == AddLogs([c EXCEPT !.txs[c.si] = [@ EXCEPT !.status = IF bads THEN -1 ELSE @, !.flags = @ \cup (IF badp \/ bads THEN {"STATUS_LINE_INVALID"} ELSE {})]],
             (IF badp THEN Warn("RESPONSE_LINE_INVALID_PROTOCOL") ELSE <<>>)
             \o (IF bads THEN Warn("RESPONSE_LINE_INVALID_RESPONSE_STATUS") ELSE <<>>))
  IN TxHook(e, "response_line", e.si)
SLineComplete(p, line) ==
  Then(LimitS(p, Len(line)), LAMBDA a :
    IF line = <<>> THEN Rc(a, "DATA")
    ELSE Then(TouchS(a), LAMBDA b :
      IF IgnorableLine(line)
      THEN [b EXCEPT !.sst = IF b.ss = "CLOSED" THEN "FINALIZE" ELSE @, !.txs[b.si].sign = @ + 1]
      ELSE LET c == [b EXCEPT !.txs[b.si] = [@ EXCEPT !.sline = <<>>, !.sprotos = <<>>, !.statuss = <<>>, !.msg = <<>>]]
               next == SubSeq(c.in, c.pos + 1, Min2(c.pos + 16, Len(c.in)))
               http == Len(next) >= 4 /\ \E i \in 1..(Len(next) - 4) : StartsAt(next, i, B("HTTP"))
           IN IF LineAsBody(line)
              THEN IF http THEN [c EXCEPT !.txs[c.si].sign = @ + 1]
                   ELSE Then(BodyS([c EXCEPT !.txs[c.si].scep = "NONE"], "data", line), LAMBDA e :
                        IF InLen(e) = 0
                        THEN [e EXCEPT !.txs[e.si].stc = "IDENTITY", !.txs[e.si].sp = "BODY", !.sleft = -1, !.sst = "FINALIZE"]
                        ELSE e)
              ELSE Then(StateResponseLine(ParseResponseLine(c, line)), LAMBDA f : Then(TouchS(f), LAMBDA g : [g EXCEPT !.sst = "HEADERS", !.txs[g.si].sp = "HEADERS"]))))
SLine(p) ==
  LET d == Rest(p)
      buffered == Len(p.sbuf)
      seen == IF p.sbuf = <<>> THEN d ELSE p.sbuf \o d
      e == AfterEol(seen)
      n == e - 1
  IN IF e # 0
     THEN Then(SLineComplete(Consume([p EXCEPT !.sbuf = <<>>], Max2(n - buffered, 0)), Upto(seen, n)), LAMBDA q :
          IF n >= buffered THEN q
          ELSE LET nx == SubSeq(seen, n + 1, buffered) IN
               IF q.sst = "HEADERS" THEN [q EXCEPT !.shdr = <<nx>>] ELSE [q EXCEPT !.sbuf = nx])
     ELSE IF p.ss = "CLOSED" THEN SLineComplete(ConsumeAll([p EXCEPT !.sbuf = <<>>]), seen)
     ELSE AbsentLfS(p)

STrailer(p) == Then(ClearRcvS(p), LAMBDA q : Then(TxHook(q, "response_trailer", q.si), LAMBDA r : [r EXCEPT !.sst = "FINALIZE"]))
SHeaders(p0) ==
  LET p == [p0 EXCEPT !.shdr = <<>>]
      d == Rest(p0)
      buffered == IF p0.shdr = <<>> THEN 0 ELSE Len(p0.shdr[1])
      all == IF p0.shdr = <<>> THEN d ELSE p0.shdr[1] \o d
      eol == IF Starts(all, <<13, 10>>) THEN 2 ELSE IF Starts(all, <<10>>) THEN 1 ELSE 0
      Ended(q) == IF S(q).sp = "HEADERS" THEN [q EXCEPT !.sst = "BODY_DETERMINE"] ELSE STrailer(q)
  IN IF p0.ss = "CLOSED"
     THEN Then(TouchS(p0), LAMBDA a :
          LET b == [a EXCEPT !.txs[a.si].scompl = TRUE, !.shdr = <<>>]
          IN STrailer(IF a.shdr = <<>> THEN b ELSE ParseRespBlock(b, a.shdr[1]).p))
     ELSE Then(TouchS(p), LAMBDA q :
          LET blank == Len(all) > eol /\ (\A i \in 1..Len(all) : IsEolByte(all[i])) /\ S(q).sp = "TRAILER"
              x == ParseRespBlock(q, all)
          IN IF eol > 0 /\ ~blank THEN Ended(Consume(q, Max2(eol - buffered, 0)))
             ELSE IF x.eoh THEN Ended(IF x.rem <= Len(d) THEN Consume(x.p, Len(d) - x.rem) ELSE x.p)
             ELSE Then(LimitS(Consume(x.p, Len(d)), x.rem), LAMBDA b :
                    Rc([b EXCEPT !.shdr = <<From(all, Len(all) - x.rem + 1)>>], "DATA_BUFFER")))

InitDecompS(p) ==
  LET x == ContentEncoding(p.cfg, p.cfg.resp_decomp, S(p).sh, "RESPONSE_TOO_MANY_LZMA_LAYERS")
  IN AddLogs([p EXCEPT !.txs[p.si].sce = x.ce, !.txs[p.si].scep = x.cep, !.txs[p.si].slayers = x.layers, !.txs[p.si].sdec = x.layers # <<>>], x.logs)
StateResponseHeaders(p) ==
  Then(ClearRcvS(p), LAMBDA a : Then(TxHook(a, "response_headers", a.si), LAMBDA b : Then(TouchS(b), InitDecompS)))
SBodyDetermine(p0) ==
  Then(TouchS(p0), LAMBDA p :
    LET t == S(p)
        hs == t.sh
        te == Lookup(hs, B("transfer-encoding"))
        cl == Lookup(hs, B("content-length"))
        ug == Lookup(hs, B("upgrade"))
        ct == Lookup(hs, B("content-type"))
        ex == LookupExact(t.rh, B("expect"))
        connect == t.meth = "CONNECT"
        a == IF connect /\ ~Is2xx(t)
             THEN [p EXCEPT !.rs = IF Over(@) THEN @ ELSE "DATA", !.other = IF t.status # 407 THEN TRUE ELSE @] ELSE p
        len == ContentLength(hs[cl].v)
        interim == t.status = 100 /\ te = 0
        h2c == t.status = 101 /\ ug # 0 /\ ContainsNoCaseNoZero(hs[ug].v, B("h2c"))
        b0 == IF h2c THEN [a EXCEPT !.txs[a.si].h2c = TRUE] ELSE a
        b == IF t.status = 101 THEN AddLogs(b0, Warn("SWITCHING_PROTO_WITH_CONTENT_LENGTH"))
             ELSE IF interim THEN AddLogs(b0, IF cl # 0 THEN len.logs ELSE <<>>)
             ELSE IF t.status >= 400 /\ t.status <= 499 /\ p.ri = p.si /\ (p.rcl > 0 \/ p.rcl = BIG) /\ p.rleft = p.rcl
                     /\ ex # 0 /\ t.rh[ex].v = B("100-continue")
             THEN [b0 EXCEPT !.rst = "FINALIZE"] ELSE b0
        nobody == t.meth = "HEAD" \/ (((t.status >= 100 /\ t.status <= 199) \/ t.status \in {204, 304}) /\ te = 0 /\ cl = 0)
        c == IF nobody THEN [b EXCEPT !.txs[b.si].stc = "NO_BODY", !.sst = "FINALIZE"]
             ELSE IF (t.status >= 100 /\ t.status <= 199) \/ t.status \in {204, 304} THEN AddLogs(b, Warn("RESPONSE_BODY_UNEXPECTED")) ELSE b
        cty == RespContentType(hs[ct].v)
        ranges == ct # 0 /\ FindSeq(cty, 1, B("multipart/byteranges")) # 0
        e == IF ct # 0 THEN [c EXCEPT !.txs[c.si].sct = <<cty>>] ELSE c
        chunked == te # 0 /\ ContainsNoCaseNoZero(hs[te].v, B("chunked"))
        f == IF nobody THEN c
             ELSE IF chunked
             THEN AddLogs([e EXCEPT !.txs[e.si] = [@ EXCEPT !.stc = "CHUNKED", !.sp = "BODY", !.flags = @ \cup (IF cl # 0 THEN {"REQUEST_SMUGGLING"} ELSE {})],
                             !.sst = "CHUNKED_LENGTH"],
                          (IF EqNoCase(hs[te].v, B("chunked")) THEN <<>> ELSE Warn("RESPONSE_ABNORMAL_TRANSFER_ENCODING"))
                          \o (IF ProtoRank[t.sproto] < ProtoRank["V1_1"] THEN Warn("RESPONSE_CHUNKED_OLD_PROTO") ELSE <<>>))
             ELSE IF cl # 0
             THEN LET g == AddLogs([e EXCEPT !.txs[e.si] = [@ EXCEPT !.stc = "IDENTITY", !.scl = len.n,
                                       !.flags = @ \cup (IF "FIELD_REPEATED" \in hs[cl].f THEN {"REQUEST_SMUGGLING"} ELSE {})],
                                       !.scl = len.n, !.sleft = len.n], len.logs)
                  IN IF len.n = NONE THEN Rc(AddLogs(g, Error("INVALID_CONTENT_LENGTH_FIELD_IN_RESPONSE")), "ERROR")
                     ELSE IF len.n # 0 THEN [g EXCEPT !.sst = "CL_KNOWN", !.txs[g.si].sp = "BODY"]
                     ELSE [g EXCEPT !.sst = "FINALIZE"]
             ELSE IF ranges THEN Rc(AddLogs(e, Error("RESPONSE_MULTIPART_BYTERANGES")), "ERROR")
             ELSE [e EXCEPT !.txs[e.si].stc = "IDENTITY", !.txs[e.si].sp = "BODY", !.sst = "STREAM_CLOSE", !.sleft = -1]
    IN IF connect /\ Is2xx(t) THEN StateResponseHeaders([p EXCEPT !.sst = "FINALIZE"])
       ELSE IF t.status = 101 /\ te = 0 /\ cl = 0
       THEN StateResponseHeaders([b0 EXCEPT !.sst = "FINALIZE", !.rs = IF Over(@) THEN @ ELSE "TUNNEL", !.ss = "TUNNEL"])
       ELSE IF interim /\ ~(cl # 0 /\ (len.n > 0 \/ len.n = BIG))
       THEN Then(ClearRcvS(IF t.c100 THEN AddLogs(b, Error("CONTINUE_ALREADY_SEEN")) ELSE b), LAMBDA x :
                 [x EXCEPT !.sst = "LINE", !.txs[x.si] = [@ EXCEPT !.sh = <<>>, !.sp = "LINE", !.c100 = TRUE]])
       ELSE Then(f, StateResponseHeaders))

(* an unusable chunk length: the rest is body until close, the part that was set aside included *)
NotChunked(p, held) ==
  LET a == AddLogs([p EXCEPT !.txs[p.si].stc = "IDENTITY", !.sst = "STREAM_CLOSE", !.sbuf = <<>>], Error("INVALID_RESPONSE_CHUNK_LEN"))
  IN IF held = <<>> THEN a ELSE BodyS(a, "data", held)
RECURSIVE SChunkedLength(_)
SChunkedLength(p0) ==
  Then(TouchS(p0), LAMBDA p :
    LET d == Rest(p)
        n == LfLen(d)
        full == p.sbuf \o Upto(d, n)
        x == ChunkLength(full)
    IN IF n = 0 THEN IF ~MaybeChunkLength(p.sbuf \o d) THEN NotChunked(p, p.sbuf) ELSE AbsentLfS(p)
       ELSE Then(IF p.sbuf # <<>> THEN LimitS(Consume(p, n), n) ELSE Consume(p, n), LAMBDA a :
            LET b == [a EXCEPT !.sbuf = <<>>]
                c == [b EXCEPT !.txs[b.si].sml = @ + Len(full)]
                e == IF x.k = "ok" /\ x.ext THEN AddLogs(c, Warn("RESPONSE_CHUNK_EXTENSION")) ELSE c
            IN IF IsChunkCtlLine(full) THEN SChunkedLength(c)
               ELSE IF x.k = "err" THEN NotChunked(Unconsume(b, n), p.sbuf)
               ELSE IF x.k = "none" THEN [e EXCEPT !.schunk = -1]
               ELSE IF x.n = 0 THEN [e EXCEPT !.schunk = 0, !.sst = "HEADERS", !.txs[e.si].sp = "TRAILER"]
               ELSE [e EXCEPT !.schunk = x.n, !.sst = "CHUNKED_DATA"]))
SChunkedData(p) ==
  LET n == Min2(InLen(p), IF p.schunk < 0 THEN 0 ELSE p.schunk) IN
  IF n = 0 THEN Rc(p, "DATA")
  ELSE Then(BodyS(p, "data", Upto(Rest(p), n)), LAMBDA q :
       LET a == Consume([q EXCEPT !.schunk = @ - n], n)
       IN IF a.schunk = 0 THEN [a EXCEPT !.sst = "CHUNKED_END"] ELSE Rc(a, "DATA"))
SChunkedEnd(p0) ==
  Then(TouchS(p0), LAMBDA p :
    LET n == LfLen(Rest(p)) IN
    IF n # 0 THEN Consume([p EXCEPT !.txs[p.si].sml = @ + n, !.sst = "CHUNKED_LENGTH"], n)
    ELSE Rc(ConsumeAll([p EXCEPT !.txs[p.si].sml = @ + InLen(p)]), "DATA_BUFFER"))
SIdentity(p) ==
  LET n == IF p.sleft = BIG THEN InLen(p) ELSE Min2(InLen(p), p.sleft)
      a == IF p.gap >= 0 THEN Then(TouchS(p), LAMBDA q : BodyHookS([q EXCEPT !.txs[q.si].sml = @ + n], "gap", n))
           ELSE BodyS(p, "data", Upto(Rest(p), n))
  IN IF p.ss = "CLOSED" THEN BodyS([p EXCEPT !.sst = "FINALIZE"], IF p.hasdata THEN "data" ELSE "end", Rest(p))
     ELSE IF p.sleft = -1 THEN Rc(p, "ERROR")
     ELSE IF n = 0 THEN Rc(p, "DATA")
     ELSE Then(a, LAMBDA q :
          LET b == Consume([q EXCEPT !.sleft = Less(@, n)], n)
          IN IF b.sleft # 0 THEN Rc(b, "DATA") ELSE BodyS([b EXCEPT !.sst = "FINALIZE"], "end", <<>>))
SStreamClose(p) ==
  LET a == IF p.gap >= 0 THEN Then(TouchS(p), LAMBDA q : BodyHookS(q, "gap", InLen(q)))
           ELSE IF InLen(p) > 0 THEN Then(BodyS(p, "data", Rest(p)), ConsumeAll) ELSE p
  IN Then(a, LAMBDA q : IF q.ss = "CLOSED" THEN [q EXCEPT !.sst = "FINALIZE"] ELSE Rc(q, "DATA"))
SFinalize(p) ==
  LET d == Rest(p)
      n == IF d # <<>> /\ d[1] = LF THEN Len(d) ELSE LfLen(d)
      work == IF p.ss = "CLOSED" THEN d ELSE Upto(d, n)
      data == p.sbuf \o work
      a == IF p.ss = "CLOSED" THEN p ELSE Consume(p, n)
  IN IF p.gap >= 0 THEN CompleteS(p)
     ELSE IF p.ss # "CLOSED" /\ d = <<>> THEN CompleteS(p)
     ELSE IF p.ss # "CLOSED" /\ n = 0 THEN AbsentLfS(p)
     ELSE Then(IF p.sbuf # <<>> THEN LimitS(a, Len(work)) ELSE a, LAMBDA b :
          LET c == [b EXCEPT !.sbuf = <<>>] IN
          IF data = <<>> THEN CompleteS(c)
          ELSE IF LineAsBody(data) THEN BodyS(AddLogs(c, Warn("RESPONSE_BODY_UNEXPECTED")), "data", data)
          ELSE CompleteS(Unconsume([c EXCEPT !.sbuf = p.sbuf], Len(data))))

SStep(p) ==
  CASE p.sst = "IDLE" -> SIdle(p)
    [] p.sst = "LINE" -> SLine(p)
    [] p.sst = "HEADERS" -> SHeaders(p)
    [] p.sst = "BODY_DETERMINE" -> SBodyDetermine(p)
    [] p.sst = "CHUNKED_LENGTH" -> SChunkedLength(p)
    [] p.sst = "CHUNKED_DATA" -> SChunkedData(p)
    [] p.sst = "CHUNKED_END" -> SChunkedEnd(p)
    [] p.sst = "CL_KNOWN" -> SIdentity(p)
    [] p.sst = "STREAM_CLOSE" -> SStreamClose(p)
    [] p.sst = "FINALIZE" -> SFinalize(p)
GapStatesS == {"CL_KNOWN", "STREAM_CLOSE", "FINALIZE"}
SOne(p) ==    \* one state after the other, until the call has its result
  IF p.ret # "" THEN p
  ELSE IF p.gap >= 0 /\ p.sst \notin GapStatesS THEN End(AddLogs(p, Error("INVALID_GAP")), "CLOSED")
  ELSE LET a == SStep(p)
           b == IF a.rc = "ok" /\ a.ss # "TUNNEL" THEN StateChangeS(a) ELSE a
       IN IF a.rc = "ok" /\ a.ss = "TUNNEL" THEN End(a, "TUNNEL")
          ELSE CASE b.rc = "ok" -> b
                 [] b.rc \in {"DATA", "DATA_BUFFER"} -> End([SendS(Ignore(b)) EXCEPT !.ss = "DATA"], "DATA")
                 [] b.rc = "DATA_OTHER" -> IF InLen(b) = 0 THEN End([b EXCEPT !.ss = "DATA"], "DATA") ELSE End([b EXCEPT !.ss = "DATA_OTHER"], "DATA_OTHER")
                 [] b.rc = "STOP" -> End([b EXCEPT !.ss = "STOP"], "STOP")
                 [] OTHER -> End([b EXCEPT !.ss = "ERROR"], "ERROR")
RECURSIVE SLoop(_)
SLoop(p) == LET q == FoldLeft(LAMBDA x, i : SOne(x), p, Steps) IN IF q.ret # "" THEN q ELSE SLoop(q)
ResponseCall(p0, d, hasdata, gap) ==
  LET p == Begin(p0, d, hasdata, gap) IN
  IF p.ss = "STOP" THEN End(AddLogs(p, Info("PARSER_STATE_ERROR")), "STOP")
  ELSE IF p.ss = "ERROR" THEN End(AddLogs(p, Error("PARSER_STATE_ERROR")), "ERROR")
  ELSE IF InLen(p) = 0 /\ p.ss # "CLOSED" THEN End(AddLogs(p, Error("ZERO_LENGTH_DATA_CHUNKS")), "CLOSED")
  ELSE LET a == [p EXCEPT !.scnt = @ + InLen(p)]
           c == TouchS(a)
           e == FlagS(c, {"RESPONSE_MISSING_BYTES"})
       IN IF a.ss = "TUNNEL" THEN End(a, "TUNNEL")
          ELSE IF gap < 0 THEN SLoop(a)
          ELSE IF c.rc # "ok" THEN End(c, "ERROR")
          ELSE IF e.ri = 0 /\ S(e).sp = "NOT_STARTED"
          THEN End([e EXCEPT !.txs[e.si].sp = "GAP", !.ss = "ERROR"], "ERROR")
          ELSE SLoop(e)

------------------------------------------------------------------------------
(* The public calls *)
Fresh(p) == [p EXCEPT !.ev = <<>>, !.logs = <<>>, !.ret = "", !.pos = 0]
OpenCall(p) == IF p.rs # "NEW" \/ p.ss # "NEW" THEN AddLogs(Fresh(p), Error("CONNECTION_ALREADY_OPEN"))
               ELSE [Fresh(p) EXCEPT !.rs = "OPEN", !.ss = "OPEN"]
Closed(st) == IF st = "ERROR" THEN st ELSE "CLOSED"
Quiet(p) == [p EXCEPT !.ret = "", !.pos = 0, !.rc = "ok"]
RequestCloseCall(p) == Quiet(RequestCall([Fresh(p) EXCEPT !.rs = Closed(@)], <<>>, FALSE, -1))
RECURSIVE FlushTxs(_, _)
FlushTxs(p, todo) ==
  IF todo = {} THEN p
  ELSE LET i == CHOOSE x \in todo : \A y \in todo : x <= y
           a == Ignore(TxHook(p, "transaction_complete", i))
       IN FlushTxs(IF p.cfg.auto_destroy THEN Drop(a, i) ELSE a, todo \ {i})
CloseCall(p) ==
  LET a == RequestCall([Fresh(p) EXCEPT !.rs = Closed(@), !.ss = Closed(@)], <<>>, FALSE, -1)
      b == ResponseCall(Quiet(a), <<>>, FALSE, -1)
  IN Quiet(IF p.cfg.flush THEN FlushTxs(Quiet(b), {i \in DOMAIN b.txs : Started(b.txs[i]) /\ ~Complete(b.txs[i])}) ELSE b)
RemoveCall(p, i) == Drop(Fresh(p), i)

(* A program with its own idea of the framing drives the stages of the messages
   one by one: start, line, headers (given as name and value), body data, end.
   The request stages go to the transaction of the next request, the response
   stages to that of the next response.                                       *)
HeaderOf(d, n) == LET k == Min2(n, Len(d)) IN [n |-> SubSeq(d, 1, k), v |-> SubSeq(d, k + 1, Len(d)), f |-> {}]
ProgressOf(n) == <<"LINE", "HEADERS", "BODY", "TRAILER">>[(n % 4) + 1]
StageCall(p0, op, d, n) ==
  LET p == Begin(Fresh(p0), <<>>, TRUE, -1)
      rt == TouchR(p)
      wt == TouchS(p)
      q == CASE op = "qs" -> Then(TouchR([p EXCEPT !.rst = "LINE"]), LAMBDA a : TxHook([a EXCEPT !.txs[a.ri].rp = "LINE"], "request_start", a.ri))
             [] op = "ql" -> Then(rt, LAMBDA a : ParseRequestLine(a, d))
             [] op = "qL" -> Then(rt, StateRequestLine)
             [] op = "qu" -> Then(rt, LAMBDA a : [a EXCEPT !.txs[a.ri].puri = <<ParseUri(d)>>])
             [] op = "qh" -> Then(rt, LAMBDA a : [a EXCEPT !.txs[a.ri].rh = Append(@, HeaderOf(d, n))])
             [] op = "qH" -> StateRequestHeaders(p)
             [] op = "qb" -> BodyR(p, "data", d)
             [] op = "qe" -> BodyR(p, "end", <<>>)
             [] op = "qp" -> Then(rt, LAMBDA a : [a EXCEPT !.txs[a.ri].rp = ProgressOf(n)])
             [] op = "qc" -> CompleteR(p)
             [] op = "ws" -> Then(wt, StateResponseStart)
             [] op = "wl" -> Then(wt, LAMBDA a : ParseResponseLine(a, d))
             [] op = "wL" -> Then(wt, StateResponseLine)
             [] op = "wh" -> Then(wt, LAMBDA a : [a EXCEPT !.txs[a.si].sh = Append(@, HeaderOf(d, n))])
             [] op = "wH" -> StateResponseHeaders(p)
             [] op = "wb" -> BodyS(p, "data", d)
             [] op = "we" -> BodyS(p, "end", <<>>)
             [] op = "wp" -> Then(wt, LAMBDA a : [a EXCEPT !.txs[a.si].sp = ProgressOf(n)])
             [] op = "wc" -> CompleteS(p)
  IN [q EXCEPT !.rc = "ok", !.ret = IF q.rc = "ok" THEN "OK" ELSE q.rc]

(* op, bytes, number: as in a scenario *)
Call(p, op, d, n) ==
  CASE op = "open" -> OpenCall(p)
    [] op \in {"c", "cr"} -> RequestCall(Fresh(p), d, TRUE, -1)
    [] op \in {"s", "sr"} -> ResponseCall(Fresh(p), d, TRUE, -1)
    [] op = "cg" -> RequestCall(Fresh(p), <<>>, FALSE, n)
    [] op = "sg" -> ResponseCall(Fresh(p), <<>>, FALSE, n)
    [] op = "rclose" -> RequestCloseCall(p)
    [] op = "close" -> CloseCall(p)
    [] op = "rm" -> RemoveCall(p, n)
    [] OTHER -> StageCall(p, op, d, n)

(* what can be seen of the transactions, and their number *)
Visible(t) == Started(t) \/ t.flags # {}
TxSize(p) == LET m == Max2(p.ri, p.si) IN IF m \in DOMAIN p.txs /\ Started(p.txs[m]) THEN m + 1 ELSE m
=============================================================================
