------------------------------- MODULE Trace --------------------------------
(* Validation of recorded executions: every behaviour recorded from the real
   library must be a behaviour of Conn, as far as the observations selected by
   the projection are concerned.  A state is (trace, number of calls done);
   a step takes the next recorded call, computes what the specification says
   about it, and compares.                                                    *)
EXTENDS Conn, Facts, SequencesExt, Json, IOUtils, TLCExt

Traces == ndJsonDeserialize(IOEnv.TRACES)
ProjSeq == JsonDeserialize(IOEnv.PROJ)
Proj == {ProjSeq[i] : i \in 1..Len(ProjSeq)}
On(f) == f \in Proj \/ "*" \in Proj

VARIABLES tr, k, p, acc, facts, st
vars == <<tr, k, p, acc, facts, st>>
view == <<tr, k, st>>

Level1 == {"i", "rp", "sp", "meth", "rproto", "sproto", "p09", "status", "rtc", "stc", "rml", "rel", "sml", "sel", "rcl", "scl",
           "flags", "c100", "h2c", "rign", "sign", "exp"}
Level2 == Level1 \cup {"rline", "method", "uri", "rprotos", "sline", "sprotos", "statuss", "msg", "rh", "sh", "rce", "sce", "rcep",
           "scep", "host", "port", "rct", "sct", "auth", "auser", "apass", "atok", "rreps", "sreps"}
Level3 == Level2 \cup {"puri", "rawuri", "nuri", "cnuri"}
LevelOf(cfg) == IF "snap" \notin DOMAIN cfg THEN Level1
                ELSE IF cfg.snap >= 3 THEN Level3 ELSE IF cfg.snap = 2 THEN Level2 ELSE Level1

SetOf(q) == {q[i] : i \in 1..Len(q)}
NormHeaders(hs) == [i \in 1..Len(hs) |-> [n |-> hs[i].n, v |-> hs[i].v, f |-> SetOf(hs[i].f)]]
(* flags: a projection may name single flags ("flag.X") instead of all of them *)
NamedFlags == {f \in {"FIELD_UNPARSEABLE", "FIELD_INVALID", "FIELD_FOLDED", "FIELD_REPEATED", "FIELD_LONG", "FIELD_RAW_NUL",
  "REQUEST_SMUGGLING", "INVALID_FOLDING", "REQUEST_INVALID_T_E", "MULTI_PACKET_HEAD", "HOST_MISSING", "HOST_AMBIGUOUS",
  "PATH_ENCODED_NUL", "PATH_RAW_NUL", "PATH_INVALID_ENCODING", "PATH_INVALID", "PATH_OVERLONG_U", "PATH_ENCODED_SEPARATOR",
  "PATH_UTF8_VALID", "PATH_UTF8_INVALID", "PATH_UTF8_OVERLONG", "PATH_HALF_FULL_RANGE", "STATUS_LINE_INVALID", "HOSTU_INVALID",
  "HOSTH_INVALID", "REQUEST_INVALID", "REQUEST_INVALID_C_L", "AUTH_INVALID", "REQUEST_MISSING_BYTES", "RESPONSE_MISSING_BYTES",
  "MISSING_BYTES"} : On("flag." \o f)}
FlagSel(fs) == LET gs == IF {"REQUEST_MISSING_BYTES", "RESPONSE_MISSING_BYTES"} \cap fs # {} THEN fs \cup {"MISSING_BYTES"} ELSE fs
               IN IF On("tx.flags") THEN gs ELSE gs \cap NamedFlags
Norm(f, v) == IF f = "flags" THEN FlagSel(SetOf(v)) ELSE IF f \in {"rh", "sh"} THEN NormHeaders(v) ELSE IF f \in {"rhfl", "shfl"} THEN SetOf(v) ELSE v
NormM(f, v) == IF f = "flags" THEN FlagSel(v) ELSE v
TxOn(f) == On("tx." \o f) \/ (f = "flags" /\ NamedFlags # {})

(* log messages: all ("logs"), or single codes ("log.X") *)
NamedLogs == {f \in Proj : Len(f) > 4 /\ SubSeq(f, 1, 4) = "log."}
LogOn(l) == ("log." \o l.c) \in NamedLogs

EvOn(e) == On("ev." \o e.h)
(* the progress a callback sees is compared only when asked for *)
EvNorm(e) == [x \in DOMAIN e \ ((IF On("ev.progress") THEN {} ELSE {"rp", "sp"}) \cup (IF "ev.nodata" \in Proj THEN {"d", "n"} ELSE {})) |-> e[x]]
(* The data one callback got is put together as long as nothing but data is handed
   out in between: in how many pieces a call delivers is not specified.       *)
Joins(a, b) == "k" \in DOMAIN a /\ "k" \in DOMAIN b /\ a.k = b.k /\ a.h = b.h /\ a.w = b.w /\ a.i = b.i
               /\ ("rp" \in DOMAIN a => a.rp = b.rp /\ a.sp = b.sp)
IsData(a) == "k" \in DOMAIN a /\ a.k = "data"
RECURSIVE GlueAt(_, _, _)
GlueAt(es, e, x) == IF x = 0 THEN 0 ELSE IF Joins(es[x], e) THEN x ELSE IF IsData(es[x]) /\ IsData(e) THEN GlueAt(es, e, x - 1) ELSE 0
AddGlue(es, e) ==
  LET m == GlueAt(es, e, Len(es))
  IN IF m = 0 THEN Append(es, e)
     ELSE IF "d" \in DOMAIN e THEN [es EXCEPT ![m].d = @ \o e.d]
     ELSE IF "n" \in DOMAIN e THEN [es EXCEPT ![m].n = @ + e.n] ELSE es
Glue(es) == FoldLeft(AddGlue, <<>>, es)
Evs(es) == LET s == SelectSeq(es, EvOn) IN Glue([i \in 1..Len(s) |-> EvNorm(s[i])])

D(f, want, got) == IF want = got THEN <<>> ELSE <<[f |-> f, want |-> want, got |-> got]>>
Dif(on, f, want, got) == IF ~on THEN <<>> ELSE D(f, want, got)
RECURSIVE Cat(_)
Cat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Cat(Tail(q))

(* what the C interface shows of a transaction besides the fields themselves: the place of the
   header found under each header's name, all flags of the headers, the URI chosen by configuration *)
Ascii(n) == \A x \in 1..Len(n) : n[x] < 128
FoundAt(hs) == [i \in 1..Len(hs) |->
  IF ~Ascii(hs[i].n) THEN -3
  ELSE LET js == {j \in 1..Len(hs) : EqNameNoZero(hs[j].n, NoZero(hs[i].n))}
       IN IF js = {} THEN -1 ELSE (CHOOSE j \in js : \A x \in js : j <= x) - 1]
FieldOf(t, f, cfg) ==
  CASE f = "rhget" -> FoundAt(t.rh) [] f = "shget" -> FoundAt(t.sh)
    [] f = "rhfl" -> UNION {t.rh[i].f : i \in 1..Len(t.rh)} [] f = "shfl" -> UNION {t.sh[i].f : i \in 1..Len(t.sh)}
    [] f \in {"rhend", "shend", "ud"} -> TRUE
    [] f = "curi" -> (IF "include_all" \in DOMAIN cfg /\ cfg.include_all THEN t.cnuri ELSE t.nuri)
    [] OTHER -> t[f]

(* differences between the transaction t of the model and its record o *)
TxDiff(t, o, cfg) ==
  LET fs == SetToSeq({f \in DOMAIN o : TxOn(f)})
  IN Cat([i \in 1..Len(fs) |-> D("tx" \o ToString(t.i) \o "." \o fs[i], NormM(fs[i], FieldOf(t, fs[i], cfg)), Norm(fs[i], o[fs[i]]))])
(* fields not recorded have not changed *)
SameDiff(t, t2, fields) ==
  IF t = t2 THEN <<>>
  ELSE LET fs == SetToSeq({f \in fields : TxOn(f)})
       IN Cat([i \in 1..Len(fs) |-> D("tx" \o ToString(t.i) \o "." \o fs[i], NormM(fs[i], t2[fs[i]]), NormM(fs[i], t[fs[i]]))])

Diff(old, new, o, fields, plen) ==
  LET s == o.s
      ids == SetOf(s.ids)
      mids == {i \in DOMAIN new.txs : IF "started" \in Proj THEN Started(new.txs[i]) ELSE Visible(new.txs[i])}
      rec == [i \in {s.txs[x].i : x \in 1..Len(s.txs)} |-> CHOOSE t \in SetOf(s.txs) : t.i = i]
      both == SetToSeq(ids \cap mids)
  IN IF "s" \notin DOMAIN o THEN <<[f |-> "panic", want |-> new.ret, got |-> o.ret]>>
     ELSE Dif(On("ret"), "ret", new.ret, o.ret)
       \o Dif(On("cons") /\ o.ret \in {"DATA", "DATA_OTHER"}, "cons", new.pos, o.cons)
       \o Dif(On("cons"), "cons<=offered", TRUE, o.cons <= plen)
       \o Dif(On("rs"), "rs", new.rs, s.rs) \o Dif(On("ss"), "ss", new.ss, s.ss)
       \o Dif(On("ri"), "ri", new.ri, s.ri) \o Dif(On("si"), "si", new.si, s.si)
       \o Dif(On("size"), "size", TxSize(new), s.size)
       \o Dif(On("rc"), "rc", new.rcnt, s.rc) \o Dif(On("sc"), "sc", new.scnt, s.sc)
       \o Dif(On("pipe"), "pipe", new.pipe, s.pipe) \o Dif(On("ext09"), "ext09", new.ext09, s.ext09)
       \o Dif(On("logs"), "logs", new.logs, s.logs)
       \o Dif(NamedLogs # {}, "logs", SelectSeq(new.logs, LogOn), SelectSeq(s.logs, LogOn))
       \o Dif("logcodes" \in Proj, "logs", [i \in 1..Len(new.logs) |-> new.logs[i].c], [i \in 1..Len(s.logs) |-> s.logs[i].c])
       \o Dif("userdata" \in Proj, "user data", TRUE, s.ud)
       \o D("ev", Evs(new.ev), Evs(o.ev))
       \o Dif(On("ids"), "ids", mids, ids)
       \o Cat([x \in 1..Len(both) |->
            LET i == both[x] IN
            (IF i \in DOMAIN rec THEN TxDiff(new.txs[i], rec[i], new.cfg) ELSE <<>>)
            \o (IF i \in DOMAIN old.txs THEN SameDiff(old.txs[i], new.txs[i], fields \ (IF i \in DOMAIN rec THEN DOMAIN rec[i] ELSE {})) ELSE <<>>)])

(* what the decompressors gave out, by transaction and progress *)
RECURSIVE Gather(_, _, _)
Gather(es, hk, key) ==
  IF es = <<>> THEN <<>>
  ELSE LET e == Head(es) IN
       (IF e.h = hk /\ e.w = 1 /\ e.k = "data" /\ e.i = key[2] /\ e.rp = key[3] /\ e.sp = key[4] THEN e.d ELSE <<>>)
       \o Gather(Tail(es), hk, key)
OracleFor(es) ==
  LET side(e) == IF e.h \in {"request_body_data", "tx_request_body_data"} THEN "r"
                 ELSE IF e.h \in {"response_body_data", "tx_response_body_data"} THEN "s" ELSE "none"
      keys == {<<side(es[i]), es[i].i, es[i].rp, es[i].sp>> : i \in {x \in 1..Len(es) : side(es[x]) # "none"}}
      has(hk, key) == \E i \in 1..Len(es) : es[i].h = hk /\ es[i].i = key[2]
      hook(key) == IF key[1] = "r" THEN (IF has("tx_request_body_data", key) THEN "tx_request_body_data" ELSE "request_body_data")
                   ELSE IF has("tx_response_body_data", key) THEN "tx_response_body_data" ELSE "response_body_data"
      ends == {<<"e", es[i].i>> : i \in {x \in 1..Len(es) : side(es[x]) = "r" /\ es[x].k = "end"}}
  IN [key \in keys \cup ends |-> IF key[1] = "e" THEN <<TRUE>> ELSE Gather(es, hook(key), key)]

T == Traces[tr]
(* the body delivered so far, per direction and transaction, when it has to be compared with a known plain text *)
HasPlain == "plain" \in DOMAIN T.meta
Init == /\ tr \in 1..Len(Traces)
        /\ k = 0 /\ st = "run" /\ acc = <<>> /\ facts = NoFacts
        /\ p = NewConn(Cfg(Traces[tr].cfg), Traces[tr].verdicts)
AccOf(key) == IF key \in DOMAIN acc THEN acc[key] ELSE <<>>
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
RECURSIVE Body(_, _, _)
Body(es, hk, i) == IF es = <<>> THEN <<>>
  ELSE (IF Head(es).h = hk /\ Head(es).i = i /\ Head(es).w = 1 /\ Head(es).k = "data" THEN Head(es).d ELSE <<>>) \o Body(Tail(es), hk, i)
(* plain texts: a list of [side, i, d, done (must be complete at the end)] *)
PlainDiff(o) ==
  IF ~HasPlain THEN <<>>
  ELSE Cat([x \in 1..Len(T.meta.plain) |->
    LET pl == T.meta.plain[x]
        hk == IF pl.side = "r" THEN "request_body_data" ELSE "response_body_data"
        now == AccOf(<<pl.side, pl.i>>) \o Body(o.ev, hk, pl.i)
    IN IF ~IsPrefixOf(now, pl.d) THEN <<[f |-> "plain", want |-> pl.d, got |-> now]>>
       ELSE IF pl.done /\ k + 1 = Len(T.steps) /\ now # pl.d THEN <<[f |-> "plain (end)", want |-> pl.d, got |-> now]>>
       ELSE <<>>])
(* the C interface: the current transactions at the end *)
FinDiff(q) ==
  IF "fin" \notin DOMAIN T \/ k + 1 # Len(T.steps) THEN <<>>
  ELSE Cat(<<D("no user data at first", TRUE, T.fin.ud),
             IF T.fin.r = -1 /\ "max_tx" \in DOMAIN T.cfg THEN <<>> ELSE D("current request", q.ri, T.fin.r),
             IF T.fin.s = -1 /\ "max_tx" \in DOMAIN T.cfg THEN <<>> ELSE D("current response", q.si, T.fin.s)>>)
NextAcc(o) ==
  IF ~HasPlain THEN acc
  ELSE [key \in {<<T.meta.plain[x].side, T.meta.plain[x].i>> : x \in 1..Len(T.meta.plain)} |->
         AccOf(key) \o Body(o.ev, IF key[1] = "r" THEN "request_body_data" ELSE "response_body_data", key[2])]

(* addresses and times; messages carry the addresses, in the order they were written *)
OfferedLen(o) == IF o.op \in {"cg", "sg"} THEN o.n ELSE Len(o.d)
FactsOf(o) == IF "facts" \in DOMAIN T.meta THEN NextFacts(facts, p, o.op, OfferedLen(o), o.t, o.a) ELSE facts
FactDiff(f, o) ==
  IF "facts" \notin DOMAIN T.meta \/ "s" \notin DOMAIN o THEN <<>>
  ELSE LET fs == SetToSeq(DOMAIN f)
       IN Cat([i \in 1..Len(fs) |-> D("fact " \o fs[i], f[fs[i]], o.s.facts[fs[i]])])
          \o D("addresses of messages", TRUE, o.s.logaddr)

Next ==
  /\ st = "run" /\ k < Len(T.steps)
  /\ LET o == T.steps[k + 1]
         q == Call([p EXCEPT !.oracle = OracleFor(o.ev)], o.op, o.d, o.n)
         df == Diff(p, q, o, LevelOf(T.cfg), OfferedLen(o)) \o PlainDiff(o) \o FinDiff(q) \o FactDiff(FactsOf(o), o)
     IN /\ p' = [q EXCEPT !.oracle = <<>>, !.in = <<>>]
        /\ acc' = NextAcc(o) /\ facts' = FactsOf(o)
        /\ st' = IF df = <<>> THEN "run" ELSE "bad"
        /\ IF df = <<>> THEN TRUE ELSE PrintT("MISMATCH " \o ToJson([id |-> T.id, step |-> k + 1, diff |-> df[1], fields |-> [x \in 1..Len(df) |-> df[x].f]]))
  /\ k' = k + 1 /\ tr' = tr
Spec == Init /\ [][Next]_vars
=============================================================================
