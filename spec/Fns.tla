-------------------------------- MODULE Fns ---------------------------------
(* Recorded calls of single public functions, judged one by one:
   urlenc: the urlencoded parser fed piece by piece, against the meaning of the
           whole text (which knows nothing of pieces);
   bstr, table: byte strings and tables;
   cnull: functions of the C interface given NULL.                            *)
EXTENDS Conn, SequencesExt, Json, IOUtils, TLCExt
Str == INSTANCE Strings
Nul == INSTANCE CNull
Runs == ndJsonDeserialize(IOEnv.TRACES)
VARIABLES tr, st
vars == <<tr, st>>
Setof(q) == {q[i] : i \in 1..Len(q)}
Want(r) ==
  CASE r.fn = "urlenc" -> (LET u == UrlComplete(Cfg(r.cfg), FlattenSeq(r.pieces)) IN [params |-> u.params, flags |-> u.fl] @@ (IF "exp" \in DOMAIN r THEN [exp |-> u.code] ELSE <<>>))
    [] r.fn = "bstr" -> Str!Want(r.a, r.b, r.cap)
    [] r.fn = "table" -> Str!WantTable(r.keys, r.ask)
    [] r.fn = "cnull" -> [ret |-> Nul!NullResult(r.name)]
Got(r) == IF r.fn = "urlenc" THEN [r.out EXCEPT !.flags = Setof(@)] ELSE r.out
(* the parts in which they differ *)
Bad(w, g) == {f \in DOMAIN w : f \notin DOMAIN g \/ w[f] # g[f]}
Init == tr \in 1..Len(Runs) /\ st = "new"
Next == /\ st = "new" /\ tr' = tr
        /\ LET r == Runs[tr]
               w == Want(r)
               bad == IF "panic" \in DOMAIN r.out THEN {"panic"} ELSE Bad(w, Got(r))
               show(v) == ToString([f \in bad \cap DOMAIN v |-> v[f]])
           IN /\ st' = IF bad = {} THEN "ok" ELSE "bad"
              /\ IF bad = {} THEN TRUE
                 ELSE PrintT("MISMATCH " \o ToJson([id |-> r.id, step |-> 1, diff |-> [f |-> r.fn, want |-> show(w), got |-> show(r.out)], fields |-> <<r.fn>>]))
Spec == Init /\ [][Next]_vars
=============================================================================
