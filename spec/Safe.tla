-------------------------------- MODULE Safe ---------------------------------
(* What holds in every history, whatever the bytes are: an abstraction of Conn
   (whose behaviours are checked against the same statements in MC) that knows
   nothing of parsing, so that very many recorded executions can be judged.
   A trace is a sequence of calls with what they returned, the callbacks that
   ran (only the first registered of each), and the transactions held.
   PROJ lists the properties to judge.                                        *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC, TLCExt
Runs == ndJsonDeserialize(IOEnv.TRACES)
Proj == JsonDeserialize(IOEnv.PROJ)
Judged == {Proj[i] : i \in 1..Len(Proj)}
VARIABLES tr, st
vars == <<tr, st>>

Data(c) == c.op \in {"c", "s", "cg", "sg"}
Request(c) == c.op \in {"c", "cg"}
Over(s) == s \in {"ERROR", "STOP"}
Ended(s) == s \in {"ERROR", "STOP", "TUNNEL"}
Results == {"DATA", "DATA_OTHER", "ERROR", "STOP", "TUNNEL", "CLOSED"}
Statuses == Results \cup {"NEW", "OPEN"}

(* how far the callbacks of a transaction have come *)
RRank == [request_start |-> 1, request_uri_normalize |-> 2, request_line |-> 3, request_header_data |-> 4, request_headers |-> 5, request_body_data |-> 6,
          request_trailer_data |-> 7, request_trailer |-> 8, request_complete |-> 9]
SRank == [response_start |-> 1, response_line |-> 2, response_header_data |-> 3, response_headers |-> 4, response_body_data |-> 5,
          response_trailer_data |-> 6, response_trailer |-> 7, response_complete |-> 8]
Many == {"request_header_data", "request_body_data", "request_trailer_data", "response_header_data", "response_body_data", "response_trailer_data"}
NoTx == [r |-> 0, s |-> 0, done |-> 0, ok |-> TRUE, rbody |-> 0, sbody |-> 0, rgap |-> 0, sgap |-> 0]
Tell(t, ev) ==
  LET h == ev[1]
      u == [t EXCEPT !.ok = @ /\ (t.done = 0 \/ h = "transaction_complete")]
  IN CASE h \in {"tx_request_body_data", "tx_response_body_data", "param"} -> t
       [] h = "transaction_complete" -> [u EXCEPT !.done = @ + 1]
       [] ev[3] = "end" -> u
       [] h \in DOMAIN RRank ->
            (LET k == RRank[h]
                 late == h = "request_body_data" /\ t.r = 8
                 v == IF late THEN u ELSE [u EXCEPT !.r = k, !.ok = @ /\ (k > t.r \/ (k = t.r /\ h \in Many)) /\ (k = 1 \/ t.r >= 1)]
             IN IF h = "request_body_data" THEN [v EXCEPT !.rbody = IF ev[3] = "data" THEN @ + ev[4] ELSE @, !.rgap = IF ev[3] = "gap" THEN @ + ev[4] ELSE @] ELSE v)
       [] OTHER ->
            (LET k == SRank[h]
                 again == k = 2 /\ t.s \in {3, 4, 5}     \* after an interim response, and what was no status line after it
                 late == h = "response_body_data" /\ t.s \in {1, 7, 8}     \* bytes between messages
                 v == IF late THEN u ELSE [u EXCEPT !.s = k, !.ok = @ /\ (again \/ k > t.s \/ (k = t.s /\ h \in Many)) /\ (k = 1 \/ t.s >= 1)]
             IN IF h = "response_body_data" THEN [v EXCEPT !.sbody = IF ev[3] = "data" THEN @ + ev[4] ELSE @, !.sgap = IF ev[3] = "gap" THEN @ + ev[4] ELSE @] ELSE v)
MonOf(m, i) == IF i \in DOMAIN m THEN m[i] ELSE NoTx
Hear(m, evs) == FoldLeft(LAMBDA a, ev : (ev[2] :> Tell(MonOf(a, ev[2]), ev)) @@ a, m, SelectSeq(evs, LAMBDA x : x[1] # "param"))
(* the indices of the messages begun, in order *)
Begun(evs, h) == LET s == SelectSeq(evs, LAMBDA x : x[1] = h) IN [i \in 1..Len(s) |-> s[i][2]]
Rising(a) == \A i \in 1..Len(a) - 1 : a[i] < a[i + 1]
Counting(a) == \A i \in 1..Len(a) - 1 : a[i] + 1 = a[i + 1]
Held(c) == {c.held[i][1] : i \in 1..Len(c.held)}

(* up to the first close *)
First1(c, x) == x.closes = 0 \/ (x.closes = 1 /\ c.op = "close")
(* the properties that the call c breaks; p is the call before, m and n what the callbacks told before and after,
   x what the history was like *)
Breaks(run, p, c, m, n, x) ==
  {k \in Judged :
     CASE k = "C21" -> ~(/\ c.ret # "PANIC" /\ (Data(c) => c.ret \in Results) /\ c.rs \in Statuses /\ c.ss \in Statuses)
       [] c.ret = "PANIC" -> FALSE
       [] k = "C05" -> Data(c) /\ ~(
            LET s == IF Request(c) THEN p.rs ELSE p.ss IN
            /\ (Ended(s) /\ (s # "TUNNEL" \/ c.len > 0) => c.ret = s /\ c.ev = <<>> /\ c.held = p.held)
            /\ (Ended(p.rs) => c.rs = p.rs) /\ (Ended(p.ss) => c.ss = p.ss))
       [] k = "C08" -> ~(
            /\ c.cons <= c.len
            /\ (c.op \in {"c", "s"} /\ c.ret = "DATA" => c.cons = c.len)
            /\ (c.op \in {"c", "s"} /\ c.ret = "DATA_OTHER" => c.cons < c.len)
            /\ c.rc = p.rc + (IF Request(c) /\ ~Over(p.rs) THEN c.len ELSE 0)
            /\ c.sc = p.sc + (IF c.op \in {"s", "sg"} /\ ~Over(p.ss) THEN c.len ELSE 0))
       [] k = "C10" -> ~(
            /\ Len(c.held) <= run.max_tx
            /\ \A i \in Held(p) \ Held(c) : (c.op = "rm" /\ c.n = i) \/ (run.auto /\ MonOf(n, i).done > 0)
            /\ (c.op = "rm" => \A j \in 1..Len(c.held) : \E l \in 1..Len(p.held) : p.held[l] = c.held[j]))
       [] k = "C01" -> ~(x.rms = 0 /\ run.verdicts = 0 /\ First1(c, x) => \A i \in DOMAIN n : n[i].ok /\ n[i].done <= 1)
       [] k = "C04" -> ~(x.rms = 0 /\ run.verdicts = 0 /\ First1(c, x) => \A j \in 1..Len(c.held) : LET h == c.held[j]
                                                                                           t == MonOf(n, h[1])
                                                                                       IN h[2] \in {t.rbody, t.rbody + t.rgap} /\ h[3] \in {t.sbody, t.sbody + t.sgap})
       [] k = "C02" -> ~(Rising(Begun(x.ev, "request_start")) /\ Counting(Begun(x.ev, "response_start")))
       [] OTHER -> FALSE}
First == [rs |-> "NEW", ss |-> "NEW", rc |-> 0, sc |-> 0, held |-> <<>>]
RECURSIVE Judge(_, _, _, _, _)
Judge(run, i, p, m, x) ==
  IF i > Len(run.steps) THEN (IF run.dropped \/ "C21" \notin Judged THEN {} ELSE {<<i, "C21">>})
  ELSE LET c == run.steps[i]
           n == Hear(m, c.ev)
           y == [closes |-> x.closes + (IF c.op \in {"close"} THEN 1 ELSE 0), rms |-> x.rms + (IF c.op = "rm" THEN 1 ELSE 0),
                 ev |-> IF "C02" \in Judged THEN x.ev \o SelectSeq(c.ev, LAMBDA e : e[1] \in {"request_start", "response_start"}) ELSE <<>>]
           b == Breaks(run, p, c, m, n, y)
       IN IF b # {} THEN {<<i, k>> : k \in b} ELSE Judge(run, i + 1, c, n, y)
Init == tr \in 1..Len(Runs) /\ st = "new"
Next == /\ st = "new" /\ tr' = tr
        /\ LET t == Runs[tr]
               bad == {j \in 1..Len(t.runs) : Judge(t.runs[j], 1, First, <<>>, [closes |-> 0, rms |-> 0, ev |-> <<>>]) # {}}
           IN /\ st' = IF bad = {} THEN "ok" ELSE "bad"
              /\ \A j \in bad :
                   LET b == CHOOSE q \in Judge(t.runs[j], 1, First, <<>>, [closes |-> 0, rms |-> 0, ev |-> <<>>]) : TRUE
                   IN PrintT("MISMATCH " \o ToJson([id |-> t.id, k |-> t.runs[j].k, step |-> b[1], diff |-> [f |-> b[2], want |-> "what holds in every history (spec/Safe.tla)",
                                                   got |-> IF b[1] <= Len(t.runs[j].steps) THEN ToString(t.runs[j].steps[b[1]]) ELSE "not dropped"], fields |-> <<b[2]>>]))
Spec == Init /\ [][Next]_vars
=============================================================================
