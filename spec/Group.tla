------------------------------- MODULE Group --------------------------------
(* Independence of the segmentation, judged on recorded executions: a group is
   a list of executions that give the parser the same bytes in the same order,
   cut differently; the first one gives every message in one piece.  The end
   result of every execution of a group has to be that of the first.          *)
EXTENDS Bytes, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC

Groups == ndJsonDeserialize(IOEnv.TRACES)    \* [id, runs: <<[id, steps], ...>>]
VARIABLES g, k, ref, st
vars == <<g, k, ref, st>>

(* events of the whole execution; data given in several pieces is put together *)
Same(a, b) == "k" \in DOMAIN a /\ "k" \in DOMAIN b /\ a.k = b.k /\ a.k = "data" /\ a.h = b.h /\ a.w = b.w /\ a.i = b.i
(* the progress recorded while data is handed out depends on how far the call has got; that of the other callbacks does not *)
AddEv(es, e0) == LET n == Len(es)  e == IF "k" \in DOMAIN e0 THEN [x \in DOMAIN e0 \ {"rp", "sp"} |-> e0[x]] ELSE e0 IN
  IF "k" \in DOMAIN e /\ e.k = "end" /\ \E i \in 1..n : es[i] = e THEN es    \* the end of a body may be told twice
  ELSE IF n > 0 /\ Same(es[n], e) THEN [es EXCEPT ![n].d = @ \o e.d] ELSE Append(es, e)
Events(steps) == FoldLeft(LAMBDA a, s : FoldLeft(AddEv, a, s.ev), <<>>, steps)

SetOf(q) == {q[i] : i \in 1..Len(q)}
Norm(t) == [f \in DOMAIN t |-> IF f = "flags" THEN SetOf(t.flags) \ {"MULTI_PACKET_HEAD"} ELSE t[f]]
Merge(m, t) == LET o == Norm(t) IN (t.i :> (IF t.i \in DOMAIN m THEN o @@ m[t.i] ELSE o)) @@ m
Txs(steps) == FoldLeft(LAMBDA m, s : FoldLeft(Merge, m, s.s.txs), <<>>, steps)

Panicked(r) == \E i \in 1..Len(r.steps) : "s" \notin DOMAIN r.steps[i]
Result(r) ==
  LET n == Len(r.steps)
      z == r.steps[n].s
  IN [ev |-> Events(r.steps), txs |-> Txs(r.steps), ids |-> SetOf(z.ids), size |-> z.size, ri |-> z.ri, si |-> z.si,
      rs |-> z.rs, ss |-> z.ss, rc |-> z.rc, sc |-> z.sc, pipe |-> z.pipe, ext09 |-> z.ext09]

FirstDiff(a, b) ==
  LET n == CHOOSE i \in 1..(Len(a) + 1) : (i > Len(a) \/ i > Len(b) \/ a[i] # b[i]) /\ \A j \in 1..(i - 1) : j <= Len(b) /\ a[j] = b[j]
  IN [at |-> n, want |-> IF n <= Len(a) THEN <<a[n]>> ELSE <<>>, got |-> IF n <= Len(b) THEN <<b[n]>> ELSE <<>>]
Diffs(a, b) ==
  LET fs == SetToSeq({f \in DOMAIN a : a[f] # b[f]})
      f == fs[1]
      tf == SetToSeq({<<i, x>> \in {<<i, x>> : i \in DOMAIN a.txs \cap DOMAIN b.txs, x \in UNION {DOMAIN a.txs[i] : i \in DOMAIN a.txs}} :
                       x \in DOMAIN a.txs[i] /\ x \in DOMAIN b.txs[i] /\ a.txs[i][x] # b.txs[i][x]})
      d == IF f = "ev" THEN LET y == FirstDiff(a.ev, b.ev) IN [f |-> "ev", want |-> ToString(y.want), got |-> ToString(y.got)]
           ELSE IF f = "txs" /\ tf # <<>> THEN [f |-> "tx" \o ToString(tf[1][1]) \o "." \o tf[1][2], want |-> ToString(a.txs[tf[1][1]][tf[1][2]]), got |-> ToString(b.txs[tf[1][1]][tf[1][2]])]
           ELSE [f |-> f, want |-> ToString(a[f]), got |-> ToString(b[f])]
  IN [diff |-> d, fields |-> fs]

Init == g \in 1..Len(Groups) /\ k = 1 /\ st = "run" /\ ref = IF Panicked(Groups[g].runs[1]) THEN <<>> ELSE Result(Groups[g].runs[1])
Next ==
  /\ k < Len(Groups[g].runs)
  /\ LET r == Groups[g].runs[k + 1]
         bad == Panicked(r) \/ ref = <<>>
         x == Result(r)
         ok == ~bad /\ x = ref
     IN /\ st' = IF ok THEN "run" ELSE "bad"
        /\ IF ok THEN TRUE
           ELSE LET d == IF bad THEN [diff |-> [f |-> "panic", want |-> "", got |-> ""], fields |-> <<"panic">>] ELSE Diffs(ref, x)
                IN PrintT("MISMATCH " \o ToJson([id |-> r.id, step |-> Len(r.steps), diff |-> d.diff, fields |-> d.fields]))
  /\ k' = k + 1 /\ UNCHANGED <<g, ref>>
Spec == Init /\ [][Next]_vars
=============================================================================
