--------------------------------- MODULE MC ---------------------------------
(* The properties, checked on the specification.  An environment delivers the
   messages of a script in every way it can: any cut, any order of the two
   directions the script allows, losses of bytes, closing at any moment,
   removal of transactions, callbacks that return other verdicts.  Next to the
   connection a monitor keeps what the callbacks have told so far; what must
   come of a script is known from the parts its messages were made of, not from
   the parsers of the specification.

   Every step of every behaviour is printed, so that the behaviours can be
   replayed in the real library (lib/mc.py) and the recording be compared with
   the specification (Trace).                                                 *)
EXTENDS Conn, SequencesExt, FiniteSetsExt, Json, IOUtils

Scripts == ndJsonDeserialize(IOEnv.SCRIPTS)

VARIABLES sc,    \* the script
          p,     \* the connection
          e,     \* the environment: bytes delivered of each direction, what else has happened
          m,     \* the monitor, by transaction
          bad,   \* properties found broken
          hist   \* what was done
vars == <<sc, p, e, m, bad, hist>>
S0 == Scripts[sc]
(* two connections that differ in what only the last call has told are the same *)
Core(q) == [q EXCEPT !.in = <<>>, !.ev = <<>>, !.logs = <<>>, !.ret = "", !.pos = 0, !.cb = 0, !.gap = 0, !.cc = 0, !.hasdata = FALSE,
                     !.rcnt = 0, !.scnt = 0, !.cri = IF q.cc = q.cri THEN 1 ELSE 0]
view == <<sc, Core(p), e, m, bad>>

------------------------------------------------------------------------------
(* Scripts: cs and ss are the messages of the two directions, each with its
   bytes d and what it is made of: line, head (raw block), body, trailer (raw
   block), and fields by the names of Conn (x).  A response may have interim
   responses before it (pre).                                                 *)
RECURSIVE Total(_)
Total(ms) == IF ms = <<>> THEN <<>> ELSE Head(ms).d \o Total(Tail(ms))
CAll == [i \in 1..Len(Scripts) |-> Total(Scripts[i].cs)]
SAll == [i \in 1..Len(Scripts) |-> Total(Scripts[i].ss)]
RECURSIVE EndsOf(_, _)
EndsOf(ms, n) == IF ms = <<>> THEN <<>> ELSE LET k == n + Len(Head(ms).d) IN <<k>> \o EndsOf(Tail(ms), k)
CEnds == [i \in 1..Len(Scripts) |-> EndsOf(Scripts[i].cs, 0)]
SEnds == [i \in 1..Len(Scripts) |-> EndsOf(Scripts[i].ss, 0)]
C == CAll[sc]
S2 == SAll[sc]
(* the message in progress: number of messages delivered whole *)
Done(ends, n) == Cardinality({i \in 1..Len(ends) : ends[i] <= n})
MsgEnd(ends, n) == LET k == {ends[i] : i \in 1..Len(ends)} IN CHOOSE x \in k : x > n /\ \A y \in k : y > n => x <= y

(* may this direction go on? "step": request, response, request ...; "pipe": no
   response before its request; "free": anything                              *)
MayC == e.order /\ e.c < Len(C) /\ (S0.order = "step" => Done(CEnds[sc], e.c) <= Done(SEnds[sc], e.s))
MayS == e.s < Len(S2) /\ (S0.order \in {"step", "pipe"} => Done(SEnds[sc], e.s) < Done(CEnds[sc], e.c))
CLimit == IF S0.order = "step" THEN MsgEnd(CEnds[sc], e.c) ELSE Len(C)
SLimit == IF S0.order = "step" THEN MsgEnd(SEnds[sc], e.s)
          ELSE IF S0.order = "pipe" THEN LET k == Done(CEnds[sc], e.c) IN IF k >= Len(S0.ss) THEN Len(S2) ELSE SEnds[sc][k]
          ELSE Len(S2)
(* where a piece may end: fine 0: at the end of the line, before its LF, at the end of what may come; 1: also one byte on;
   2: at the start of a message, anywhere; 3: anywhere *)
Stops(d, from, to, fine, start) ==
  LET a == {from + 1, to}
      b == {i \in (from + 1)..to : d[i] = LF}
      near == IF b = {} THEN {} ELSE {Min(b), Min(b) - 1}
  IN {x \in (IF fine = 3 \/ (fine = 2 /\ start) THEN (from + 1)..to ELSE IF fine >= 1 THEN a \cup near ELSE {to} \cup near) : x > from /\ x <= to}
Start(ends, at) == at = 0 \/ \E i \in 1..Len(ends) : ends[i] = at

------------------------------------------------------------------------------
(* The monitor *)
NoTx == [r |-> 0, s |-> 0, done |-> 0, rbody |-> <<>>, sbody |-> <<>>, rhd |-> <<>>, rtd |-> <<>>, shd |-> <<>>, std |-> <<>>, inter |-> <<>>, rend |-> 0, ok |-> TRUE]
RRank == [request_start |-> 1, request_uri_normalize |-> 2, request_line |-> 3, request_header_data |-> 4, request_headers |-> 5, request_body_data |-> 6,
          request_trailer_data |-> 7, request_trailer |-> 8, request_complete |-> 9]
SRank == [response_start |-> 1, response_line |-> 2, response_header_data |-> 3, response_headers |-> 4, response_body_data |-> 5,
          response_trailer_data |-> 6, response_trailer |-> 7, response_complete |-> 8]
Several == {"request_header_data", "request_body_data", "request_trailer_data", "response_header_data", "response_body_data", "response_trailer_data"}
Bytes2(ev) == IF ev.k = "data" THEN ev.d ELSE IF ev.k = "gap" THEN [i \in 1..ev.n |-> -1] ELSE <<>>
Tell(t, ev) ==
  IF "w" \notin DOMAIN ev \/ ev.w # 1 \/ ev.h \in {"tx_request_body_data", "tx_response_body_data"} THEN t
  ELSE LET u == [t EXCEPT !.ok = @ /\ (t.done = 0 \/ ev.h = "transaction_complete")] IN
  IF ev.h = "transaction_complete" THEN [u EXCEPT !.done = @ + 1]
  ELSE IF "k" \in DOMAIN ev /\ ev.k = "end" THEN (IF ev.h = "request_body_data" THEN [u EXCEPT !.rend = @ + 1] ELSE u)
  ELSE IF ev.h \in DOMAIN RRank
  THEN LET k == RRank[ev.h]
           v == [u EXCEPT !.r = k, !.ok = @ /\ (k > t.r \/ (k = t.r /\ ev.h \in Several)) /\ (k = 1 \/ t.r >= 1)]
       IN CASE ev.h = "request_body_data" /\ t.r = 8 -> [u EXCEPT !.rbody = @ \o Bytes2(ev)]
            [] ev.h = "request_body_data" -> [v EXCEPT !.rbody = @ \o Bytes2(ev)]
            [] ev.h = "request_header_data" -> [v EXCEPT !.rhd = @ \o ev.d]
            [] ev.h = "request_trailer_data" -> [v EXCEPT !.rtd = @ \o ev.d]
            [] OTHER -> v
  ELSE LET k == SRank[ev.h]
           again == k = 2 /\ t.s \in {3, 4}    \* the line of the response after an interim one
           v == [u EXCEPT !.s = k, !.ok = @ /\ (again \/ k > t.s \/ (k = t.s /\ ev.h \in Several)) /\ (k = 1 \/ t.s >= 1),
                          !.shd = IF again THEN <<>> ELSE @, !.inter = IF again THEN Append(@, t.shd) ELSE @]
       IN CASE ev.h = "response_body_data" /\ t.s \in {1, 7} -> [u EXCEPT !.sbody = @ \o Bytes2(ev)]    \* what cannot be a status line is body data, of what went before or comes after
            [] ev.h = "response_body_data" -> [v EXCEPT !.sbody = @ \o Bytes2(ev)]
            [] ev.h = "response_header_data" -> [v EXCEPT !.shd = @ \o ev.d]
            [] ev.h = "response_trailer_data" -> [v EXCEPT !.std = @ \o ev.d]
            [] OTHER -> v
MonOf(mm, i) == IF i \in DOMAIN mm THEN mm[i] ELSE NoTx
Hear(mm, evs) == FoldLeft(LAMBDA a, ev : IF "i" \notin DOMAIN ev THEN a ELSE (ev.i :> Tell(MonOf(a, ev.i), ev)) @@ a, mm, evs)

------------------------------------------------------------------------------
(* The properties: the set of those that the step from (p, m, e) to (q, n, f)
   by the call op breaks, and those that the state reached breaks             *)
Data(op) == op \in {"c", "s", "cg", "sg"}
Side(op) == op \in {"c", "cg"}
Undisturbed(f) == f.gaps = 0 /\ f.rms = 0 /\ f.order /\ S0.verdicts = <<>>
Like(got, want) == Len(got) = Len(want) /\ \A i \in 1..Len(got) : got[i] = want[i] \/ got[i] = -1
PrefixLike(got, want) == Len(got) <= Len(want) /\ Like(got, SubSeq(want, 1, Len(got)))
Alive(st) == st \notin {"ERROR", "STOP"}
Has(r, f) == f \in DOMAIN r

C01(q, n, f) == (S0.verdicts # <<>> /\ f.closes > 0) \/ \A i \in DOMAIN n : (n[i].ok \/ f.closes > 1) /\ (f.closes <= 1 => n[i].done <= 1)
(* a message closed in the middle is not judged *)
Judged(f) == f.closes = 0 \/ (f.c = Len(C) /\ f.s = Len(S2))
C02(q, f) ==   \* each transaction has the request and the response of its number
  Undisturbed(f) /\ Judged(f) /\ S0.order # "free" /\ ~S0.odd =>
    \A i \in DOMAIN q.txs : LET t == q.txs[i] IN
      /\ (t.uri # <<>> /\ i < Len(S0.cs) => t.uri[1] = S0.cs[i + 1].x.uri)
      /\ (t.status # 0 /\ ~t.c100 /\ i < Len(S0.ss) /\ S0.ss[i + 1].pre = <<>> => t.status = S0.ss[i + 1].x.status)
      /\ t.i = i
C04(q, n, f) ==
  Undisturbed(f) /\ Judged(f) /\ S0.order # "free" /\ ~S0.odd =>
    /\ \A i \in DOMAIN n : /\ (i < Len(S0.cs) => PrefixLike(n[i].rbody, S0.cs[i + 1].body))
                           /\ (i < Len(S0.ss) => PrefixLike(n[i].sbody, S0.ss[i + 1].body))
    /\ \A i \in DOMAIN q.txs : i \in DOMAIN n /\ i < Len(S0.cs) =>
         /\ (q.txs[i].rp = "COMPLETE" /\ f.closes = 0 => n[i].rbody = S0.cs[i + 1].body /\ q.txs[i].rel = Len(n[i].rbody))
         /\ (q.txs[i].rp = "COMPLETE" /\ f.closes = 0 => (S0.cs[i + 1].hasbody <=> n[i].rend > 0))
         /\ (i < Len(S0.ss) /\ q.txs[i].sp = "COMPLETE" /\ f.closes = 0 => n[i].sbody = S0.ss[i + 1].body /\ q.txs[i].sel = Len(n[i].sbody))
         /\ (i < Len(S0.ss) /\ q.txs[i].sp = "COMPLETE" /\ f.closes > 0 /\ f.s = Len(S2) => n[i].sbody = S0.ss[i + 1].body)
C05(op, q) ==
  Data(op) => LET st == IF Side(op) THEN p.rs ELSE p.ss IN
    /\ (st \in {"ERROR", "STOP"} => q.ret = st /\ q.ev = <<>> /\ q.txs = p.txs /\ (IF Side(op) THEN q.rs ELSE q.ss) = st)
    /\ (st = "TUNNEL" => q.ret = "TUNNEL" /\ q.ev = <<>> /\ (IF Side(op) THEN q.rs ELSE q.ss) = st)
    /\ (p.rs \in {"ERROR", "STOP", "TUNNEL"} => q.rs = p.rs) /\ (p.ss \in {"ERROR", "STOP", "TUNNEL"} => q.ss = p.ss)    \* whatever comes from the other side
C06(op, q) ==
  Data(op) => \A i \in 1..Len(S0.verdicts) :
    LET v == S0.verdicts[i]
        cnt(x) == IF <<v.h, v.w>> \in DOMAIN x.cnt THEN x.cnt[<<v.h, v.w>>] ELSE 0
    IN v.ret \in {"STOP", "ERROR"} /\ v.n > 0 /\ v.h # "request_start" /\ ~(v.h \in Several) /\ cnt(p) < v.n /\ cnt(q) >= v.n
       => /\ q.ret = v.ret /\ cnt(q) = v.n /\ (IF Side(op) THEN q.rs ELSE q.ss) = v.ret
          /\ q.ev # <<>> /\ q.ev[Len(q.ev)].h = v.h /\ q.ev[Len(q.ev)].w = v.w
C07(op, q, n, f) ==
  /\ (f.gaps = 0 /\ S0.verdicts = <<>> =>     \* nothing is taken after a CONNECT before its response line
        \A i \in 1..Len(S0.cs) : S0.cs[i].connect /\ f.c > CEnds[sc][i] => MonOf(n, i - 1).s >= 2 \/ q.rs \in {"ERROR", "STOP", "TUNNEL", "CLOSED"})
  /\ ((q.rs = "TUNNEL" <=> q.ss = "TUNNEL") \/ f.closes > 0 \/ q.rs \in {"ERROR", "STOP", "CLOSED"} \/ q.ss \in {"ERROR", "STOP", "CLOSED"})
  /\ (q.rs = "TUNNEL" => \E i \in DOMAIN n : MonOf(n, i).s >= 2)
C08(op, q, len) ==
  /\ (Data(op) /\ q.ret = "DATA" /\ ~(op \in {"cg", "sg"}) => q.pos = len)
  /\ (Data(op) /\ q.ret = "DATA_OTHER" => q.pos < len)
  /\ q.pos <= len
  /\ q.rcnt = p.rcnt + (IF Side(op) /\ Alive(p.rs) THEN len ELSE 0)
  /\ q.scnt = p.scnt + (IF op \in {"s", "sg"} /\ Alive(p.ss) THEN len ELSE 0)
C09(q) == Len(q.rbuf) <= q.cfg.field_limit /\ Len(q.sbuf) <= q.cfg.field_limit
C10(op, q, n) ==
  /\ Cardinality(DOMAIN q.txs) <= q.cfg.max_tx
  /\ \A i \in DOMAIN p.txs \ DOMAIN q.txs : op = "rm" \/ (q.cfg.auto_destroy /\ MonOf(n, i).done > 0)
  /\ (op = "rm" => \A i \in DOMAIN q.txs : q.txs[i] = p.txs[i])
C13(op, q, n, f) ==
  /\ (op \in {"cg", "sg"} /\ DOMAIN p.txs = {} => q.ret # "DATA" /\ q.ev = <<>>)
  /\ (op \in {"cg", "sg"} => \A i \in 1..Len(q.ev) : q.ev[i].h \notin {"request_line", "response_line", "request_header_data", "response_header_data"})
  /\ (f.gaps > 0 /\ f.badgaps = 0 /\ f.rms = 0 /\ f.closes = 0 /\ S0.verdicts = <<>> /\ S0.order = "step" /\ ~S0.odd =>
        /\ \A i \in DOMAIN n : (i < Len(S0.cs) => PrefixLike(n[i].rbody, S0.cs[i + 1].body)) /\ (i < Len(S0.ss) => PrefixLike(n[i].sbody, S0.ss[i + 1].body))
        /\ \A i \in DOMAIN q.txs : (i < Len(S0.cs) /\ q.txs[i].rp = "COMPLETE" => Like(n[i].rbody, S0.cs[i + 1].body) /\ q.txs[i].uri[1] = S0.cs[i + 1].x.uri)
                                   /\ (i < Len(S0.ss) /\ q.txs[i].sp = "COMPLETE" => Like(n[i].sbody, S0.ss[i + 1].body)))
C18(op, q, n) ==
  op = "close" =>
    /\ (q.cfg.flush => \A i \in DOMAIN q.txs : Started(q.txs[i]) => MonOf(n, i).done >= 1)
    /\ (~q.cfg.flush => \A i \in DOMAIN q.txs : ~Complete(q.txs[i]) => MonOf(n, i).done = 0)
    /\ \A i \in DOMAIN q.txs : Complete(q.txs[i]) /\ S0.verdicts = <<>> => MonOf(n, i).done >= 1
C21(op, q) ==
  /\ (Data(op) => q.ret \in {"DATA", "DATA_OTHER", "ERROR", "STOP", "TUNNEL", "CLOSED"})
  /\ q.rs \in {"NEW", "OPEN", "CLOSED", "ERROR", "TUNNEL", "DATA_OTHER", "STOP", "DATA"} /\ q.ss \in {"NEW", "OPEN", "CLOSED", "ERROR", "TUNNEL", "DATA_OTHER", "STOP", "DATA"}
  /\ \A i \in DOMAIN q.txs : i <= Max2(q.ri, q.si) /\ q.txs[i].rp \in DOMAIN RpRank /\ q.txs[i].sp \in DOMAIN RpRank
C22(q, n, f) ==
  Undisturbed(f) /\ S0.order # "free" /\ ~S0.odd /\ f.closes = 0 =>
    \A i \in DOMAIN n :
      /\ (i < Len(S0.cs) => IsPrefix(n[i].rhd, S0.cs[i + 1].head) /\ (n[i].r >= 5 => n[i].rhd = S0.cs[i + 1].head)
                            /\ IsPrefix(n[i].rtd, S0.cs[i + 1].trailer) /\ (n[i].r >= 8 => n[i].rtd = S0.cs[i + 1].trailer))
      /\ (i < Len(S0.ss) /\ Len(n[i].inter) = Len(S0.ss[i + 1].pre) =>
            IsPrefix(n[i].shd, S0.ss[i + 1].head) /\ (n[i].s >= 4 => n[i].shd = S0.ss[i + 1].head) /\ n[i].inter = S0.ss[i + 1].pre
            /\ IsPrefix(n[i].std, S0.ss[i + 1].trailer) /\ (n[i].s >= 7 => n[i].std = S0.ss[i + 1].trailer))
(* when everything has been delivered and nothing disturbed it: the fields are those the messages were made of,
   and the result is that of every message in one piece (C03, and the fields of C11, C12, C15, C20, C23, C24) *)
Final(t) == [k \in DOMAIN t \ {"flags"} |-> t[k]]
FinalFlags(t) == t.flags \ {"MULTI_PACKET_HEAD"}
RECURSIVE RunWhole(_, _, _, _)
RunWhole(q, n, cs, ss) ==    \* each message in one piece, in turn
  IF cs = <<>> /\ ss = <<>> THEN LET z == Call(q, "close", <<>>, 0) IN [p |-> z, m |-> Hear(n, z.ev)]
  ELSE LET a == IF cs = <<>> THEN q ELSE Call(q, "c", Head(cs).d, 0)
           x == IF cs = <<>> THEN n ELSE Hear(n, a.ev)
           b == IF ss = <<>> THEN a ELSE Call(a, "s", Head(ss).d, 0)
           y == IF ss = <<>> THEN x ELSE Hear(x, b.ev)
       IN RunWhole(b, y, IF cs = <<>> THEN cs ELSE Tail(cs), IF ss = <<>> THEN ss ELSE Tail(ss))
Refs == [i \in 1..Len(Scripts) |-> LET z == Scripts[i] IN RunWhole(Call(NewConn(Cfg(z.cfg), <<>>), "open", <<>>, 0), <<>>, IF z.hyb THEN z.wire.cs ELSE z.cs, IF z.hyb THEN z.wire.ss ELSE z.ss)]
AllDone(f) == f.c = Len(C) /\ f.s = Len(S2)
C03(op, q, n, f) ==
  op = "close" /\ f.closes = 1 /\ Undisturbed(f) /\ AllDone(f) /\ S0.order # "free" /\ ~S0.odd /\ ~q.cfg.auto_destroy /\ f.order =>
    LET r == Refs[sc] IN
      /\ DOMAIN q.txs = DOMAIN r.p.txs
      /\ \A i \in DOMAIN q.txs : Final(q.txs[i]) = Final(r.p.txs[i]) /\ FinalFlags(q.txs[i]) = FinalFlags(r.p.txs[i])
      /\ [i \in DOMAIN n |-> [n[i] EXCEPT !.rend = 0]] = [i \in DOMAIN r.m |-> [r.m[i] EXCEPT !.rend = 0]]
      /\ q.rs = r.p.rs /\ q.ss = r.p.ss
FieldsOff(op, q, f) ==    \* the fields that are not what they should be
  IF ~(op = "close" /\ f.closes = 1 /\ Undisturbed(f) /\ AllDone(f) /\ S0.order # "free" /\ ~S0.odd /\ ~q.cfg.auto_destroy) THEN {}
  ELSE LET Headers(v) == [j \in 1..Len(v) |-> <<v[j].n, v[j].v>>]
           T(i) == IF (i - 1) \in DOMAIN q.txs THEN q.txs[i - 1] ELSE BlankTx(i - 1)
           Single == {"uri", "method", "rline", "rprotos", "sline", "msg", "sprotos"}
           Is(i, k, w) == IF k \in Single THEN T(i)[k] = <<w>>
                          ELSE IF k = "flags" THEN FinalFlags(T(i)) = {w[j] : j \in 1..Len(w)}
                          ELSE IF k \in {"rh", "sh"} THEN Headers(T(i)[k]) = w ELSE T(i)[k] = w
       IN UNION {{k \in DOMAIN S0.cs[i].x : ~Is(i, k, S0.cs[i].x[k])} : i \in 1..Len(S0.cs)}
          \cup UNION {{k \in DOMAIN S0.ss[i].x : ~Is(i, k, S0.ss[i].x[k])} : i \in 1..Len(S0.ss)}

(* a message told stage by stage: nothing is refused, the callbacks come in order, verdicts come back from the call that
   ran the callback, and in the end the transactions are those of the same messages on the wire (ops, by message: what is
   told; wire: the same messages as bytes).  What has to do with bytes only -- line endings, message lengths -- is left out. *)
Told == {"i", "meth", "method", "uri", "rprotos", "rproto", "p09", "rh", "host", "port", "rct", "auth", "auser", "apass", "atok", "puri", "rtc", "rcl", "rel", "rp", "rreps",
         "sprotos", "sproto", "statuss", "status", "msg", "sh", "sel", "sp", "sreps", "rce", "sce", "c100", "exp"}
C28(op, q, n, f) ==
  LET stage == op \in {"qs", "ql", "qL", "qh", "qH", "qb", "qp", "qc", "ws", "wl", "wL", "wh", "wH", "wb", "wp", "wc"}
      cnt(x, v) == IF <<v.h, v.w>> \in DOMAIN x.cnt THEN x.cnt[<<v.h, v.w>>] ELSE 0
      told(k) == \E i \in 1..Len(S0.verdicts) : LET v == S0.verdicts[i] IN v.ret = k /\ cnt(p, v) < v.n /\ cnt(q, v) >= v.n
  IN /\ (stage /\ told("STOP") => q.ret = "STOP") /\ (stage /\ told("ERROR") => q.ret = "ERROR")
     /\ (stage /\ f.skips = 0 /\ S0.verdicts = <<>> => q.ret = "OK")
     /\ (f.skips = 0 /\ S0.verdicts = <<>> => \A i \in DOMAIN n : n[i].ok /\ n[i].done <= 1)
     /\ Cardinality(DOMAIN q.txs) <= q.cfg.max_tx
     /\ (stage => \A i \in DOMAIN p.txs : i \in DOMAIN q.txs /\ (i = (IF op \in {"qs", "ql", "qL", "qh", "qH", "qb", "qp", "qc"} THEN p.ri ELSE p.si) \/ q.txs[i] = p.txs[i]))     \* nothing but its own transaction
     /\ (op = "close" /\ f.closes = 1 /\ f.skips = 0 /\ S0.verdicts = <<>> /\ f.c = Len(C) /\ f.s = Len(S2) =>
           LET r == Refs[sc] IN
             /\ {i \in DOMAIN q.txs : Started(q.txs[i])} = {i \in DOMAIN r.p.txs : Started(r.p.txs[i])}
             /\ \A i \in DOMAIN r.p.txs : Started(r.p.txs[i]) => /\ \A k \in Told : q.txs[i][k] = r.p.txs[i][k]
                                                             /\ FinalFlags(q.txs[i]) = FinalFlags(r.p.txs[i])
                                                             /\ n[i].rbody = r.m[i].rbody /\ n[i].sbody = r.m[i].sbody /\ n[i].r = r.m[i].r /\ n[i].s = r.m[i].s /\ n[i].done = r.m[i].done)

Broken(op, len, q, n, f) ==
  IF S0.hyb THEN (IF C28(op, q, n, f) THEN {} ELSE {"C28"}) ELSE
  (IF C01(q, n, f) THEN {} ELSE {"C01"}) \cup (IF C02(q, f) THEN {} ELSE {"C02"}) \cup (IF C03(op, q, n, f) THEN {} ELSE {"C03"})
  \cup (IF C04(q, n, f) THEN {} ELSE {"C04"}) \cup (IF C05(op, q) THEN {} ELSE {"C05"}) \cup (IF C06(op, q) THEN {} ELSE {"C06"})
  \cup (IF C07(op, q, n, f) THEN {} ELSE {"C07"}) \cup (IF C08(op, q, len) THEN {} ELSE {"C08"}) \cup (IF C09(q) THEN {} ELSE {"C09"})
  \cup (IF C10(op, q, n) THEN {} ELSE {"C10"}) \cup (IF C13(op, q, n, f) THEN {} ELSE {"C13"}) \cup (IF C18(op, q, n) THEN {} ELSE {"C18"})
  \cup (IF C21(op, q) THEN {} ELSE {"C21"}) \cup (IF C22(q, n, f) THEN {} ELSE {"C22"}) \cup {"tx." \o k : k \in FieldsOff(op, q, f)}

------------------------------------------------------------------------------
(* The environment *)
E0 == [c |-> 0, s |-> 0, gaps |-> 0, badgaps |-> 0, rms |-> 0, closes |-> 0, order |-> TRUE, skips |-> 0]
Init == /\ sc \in 1..Len(Scripts)
        /\ p = Call(NewConn(Cfg(Scripts[sc].cfg), Scripts[sc].verdicts), "open", <<>>, 0)
        /\ e = E0 /\ m = <<>> /\ bad = {} /\ hist = <<>>
Do(op, d, len, code, F(_)) ==
  LET q == Call(p, op, d, len)
      n == Hear(m, q.ev)
      f == F(q)
      k == IF op \in {"c", "s"} THEN Len(d) ELSE IF op \in {"cg", "sg"} THEN len ELSE 0
      br == Broken(op, k, q, n, f)
  IN /\ p' = [q EXCEPT !.in = <<>>]
     /\ m' = n /\ e' = f
     /\ bad' = bad \cup br
     /\ IF br \subseteq bad THEN TRUE ELSE PrintT("BROKEN " \o ToString(br) \o " " \o S0.id \o " " \o ToJson(hist \o <<code>>))
     /\ hist' = Append(hist, code)
     /\ PrintT("HIST " \o ToJson(<<sc>> \o hist'))
     /\ UNCHANGED sc
(* after DATA_OTHER the rest is offered again *)
Took(q, len) == IF q.ret = "DATA_OTHER" THEN q.pos ELSE len
(* was this piece of the client given before a response line that would have settled things? (order of the directions) *)
DataC == ~S0.hyb /\ MayC /\ \E x \in Stops(C, e.c, CLimit, S0.fine, Start(CEnds[sc], e.c)) :
           Do("c", SubSeq(C, e.c + 1, x), 0, <<"c", e.c, x>>, LAMBDA q : [e EXCEPT !.c = @ + Took(q, x - e.c)])
DataS == ~S0.hyb /\ MayS /\ \E x \in Stops(S2, e.s, SLimit, S0.fine, Start(SEnds[sc], e.s)) :
           Do("s", SubSeq(S2, e.s + 1, x), 0, <<"s", e.s, x>>, LAMBDA q : [e EXCEPT !.s = @ + Took(q, x - e.s)])
(* bytes are lost: inside the body (known to be so when the head has been delivered), or anywhere *)
BodyAt(ms, ends, at) ==   \* bytes of a body of known length or until close left from here on, 0 if not in one
  LET k == Done(ends, at) + 1 IN
  IF k > Len(ms) \/ ms[k].framing \notin {"cl", "close"} \/ at < ends[k] - Len(ms[k].body) THEN 0 ELSE ends[k] - at
GapC == S0.gaps > e.gaps /\ MayC /\ \E x \in {e.c + 1, CLimit} :
          LET in == BodyAt(S0.cs, CEnds[sc], e.c) >= x - e.c IN
          Do("cg", <<>>, x - e.c, <<"cg", x - e.c, 0>>, LAMBDA q : [e EXCEPT !.c = x, !.gaps = @ + 1, !.badgaps = IF in THEN @ ELSE @ + 1])
GapS == S0.gaps > e.gaps /\ MayS /\ \E x \in {e.s + 1, SLimit} :
          LET in == BodyAt(S0.ss, SEnds[sc], e.s) >= x - e.s IN
          Do("sg", <<>>, x - e.s, <<"sg", x - e.s, 0>>, LAMBDA q : [e EXCEPT !.s = x, !.gaps = @ + 1, !.badgaps = IF in THEN @ ELSE @ + 1])
(* stages: the next one is told, told twice, or left out *)
StageOf(ms, at) == FlattenSeq([i \in 1..Len(ms) |-> ms[i].ops])[at + 1]
StageC == S0.hyb /\ MayC /\ LET o == StageOf(S0.cs, e.c) IN
            \/ Do(o[1], o[2], o[3], <<"C", e.c, 0>>, LAMBDA q : [e EXCEPT !.c = @ + 1])
            \/ e.skips < S0.skips /\ (\/ Do(o[1], o[2], o[3], <<"C", e.c, 0>>, LAMBDA q : [e EXCEPT !.skips = @ + 1])
                                      \/ /\ e' = [e EXCEPT !.c = @ + 1, !.skips = @ + 1] /\ UNCHANGED <<sc, p, m, bad, hist>>)
StageS == S0.hyb /\ MayS /\ LET o == StageOf(S0.ss, e.s) IN
            \/ Do(o[1], o[2], o[3], <<"S", e.s, 0>>, LAMBDA q : [e EXCEPT !.s = @ + 1])
            \/ e.skips < S0.skips /\ (\/ Do(o[1], o[2], o[3], <<"S", e.s, 0>>, LAMBDA q : [e EXCEPT !.skips = @ + 1])
                                      \/ /\ e' = [e EXCEPT !.s = @ + 1, !.skips = @ + 1] /\ UNCHANGED <<sc, p, m, bad, hist>>)
Close == e.closes < S0.closes /\ Do("close", <<>>, 0, <<"close", 0, 0>>, LAMBDA q : [e EXCEPT !.closes = @ + 1])
RClose == S0.rclose /\ e.closes = 0 /\ e.order /\ Do("rclose", <<>>, 0, <<"rclose", 0, 0>>, LAMBDA q : [e EXCEPT !.order = FALSE])
Rm == e.rms < S0.rms /\ \E i \in DOMAIN p.txs : Complete(p.txs[i]) /\ Do("rm", <<>>, i, <<"rm", i, 0>>, LAMBDA q : [e EXCEPT !.rms = @ + 1])
(* closing: at any moment, or only at the end *)
EarlyClose == S0.early \/ AllDone(e) \/ (~MayC /\ ~MayS)
Next == /\ Len(hist) < S0.depth
        /\ \/ e.closes = 0 /\ (DataC \/ DataS \/ StageC \/ StageS \/ GapC \/ GapS \/ RClose)
           \/ EarlyClose /\ Close
           \/ Rm
Spec == Init /\ [][Next]_vars
Sound == bad = {}
=============================================================================
