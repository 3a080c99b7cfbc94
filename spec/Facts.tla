------------------------------- MODULE Facts --------------------------------
(* What a connection parser keeps of the calls themselves: who talks to whom,
   and when the connection was opened, closed, and each side last heard.
   p is the connection (of Conn) before the call.  A time is <<seconds,
   microseconds>>; <<>> is no time given (or one that no calendar knows).     *)
EXTENDS Conn

Addresses == {"10.0.0.1", "10.0.0.2", "192.168.255.254", "0.0.0.0", "255.255.255.255", "::1", "::", "fe80::1", "2001:db8::8a2e:370:7334"}
Address(x) == IF x \in Addresses THEN x ELSE "none"
Port(n) == IF n \in 0..65535 THEN n ELSE -1

NoFacts == [ca |-> "none", cp |-> -1, sa |-> "none", sp |-> -1, ot |-> <<0, 0>>, ct |-> <<0, 0>>, rt |-> <<0, 0>>, st |-> <<0, 0>>]
At(t, old) == IF t = <<>> THEN old ELSE t

(* whether a chunk of n bytes is heard at all on a side with this status *)
Heard(status, n) == status \notin {"STOP", "ERROR"} /\ (n > 0 \/ status = "CLOSED")

NextFacts(f, q, op, n, t, a) ==
  CASE op = "open" -> (IF q.rs = "NEW" /\ q.ss = "NEW"
                       THEN [f EXCEPT !.ca = Address(a.ca), !.cp = Port(a.cp), !.sa = Address(a.sa), !.sp = Port(a.sp), !.ot = At(t, @)]
                       ELSE f)
    [] op \in {"c", "cr", "cg"} -> (IF Heard(q.rs, n) THEN [f EXCEPT !.rt = At(t, @)] ELSE f)
    [] op \in {"s", "sr", "sg"} -> (IF Heard(q.ss, n) THEN [f EXCEPT !.st = At(t, @)] ELSE f)
    [] op = "rclose" -> (IF q.rs = "ERROR" THEN f ELSE [f EXCEPT !.rt = At(t, @)])
    [] op = "close" -> [f EXCEPT !.ct = At(t, @), !.rt = IF q.rs = "ERROR" THEN @ ELSE At(t, @), !.st = IF q.ss = "ERROR" THEN @ ELSE At(t, @)]
    [] OTHER -> f
=============================================================================
