------------------------------ MODULE Strings -------------------------------
(* Byte strings and tables as the library offers them (Bstr, Table, Headers and
   the bstr_* functions of the C interface).                                  *)
EXTENDS Bytes

(* -1, 0, 1: order of byte strings *)
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i > Len(a) THEN (IF i > Len(b) THEN 0 ELSE -1)
                  ELSE IF i > Len(b) THEN 1
                  ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE CmpAt(a, b, i + 1)
Cmp(a, b) == CmpAt(a, b, 1)
CmpNoCase(a, b) == Cmp(LowerSeq(a), LowerSeq(b))
(* white space at the ends (of ASCII strings) *)
DropFirst(s, T(_)) == From(s, Skip(s, 1, T))
DropEnds(s, T(_)) == LET x == DropFirst(s, T) IN Upto(x, LastNot(x, T))

(* position (from 0) of the first occurrence of k in s; -1 if none *)
Find(s, k) == IF k = <<>> THEN 0 ELSE FindSeq(s, 1, k) - 1
FindNoCase(s, k) == IF k = <<>> THEN -1 ELSE FindSeq(LowerSeq(s), 1, LowerSeq(k)) - 1
(* zeros in s do not count, but positions are those of s *)
NthNonZero(s, n) == CHOOSE i \in 1..Len(s) : s[i] # 0 /\ Len(NoZero(Upto(s, i))) = n
FindNoCaseNoZero(s, k) ==
  IF k = <<>> THEN -1
  ELSE LET f == FindSeq(LowerSeq(NoZero(s)), 1, LowerSeq(k)) IN IF f = 0 THEN -1 ELSE NthNonZero(s, f) - 1
(* pieces between the occurrences of a non-empty separator, which do not overlap *)
RECURSIVE Split(_, _)
Split(s, k) == LET f == FindSeq(s, 1, k) IN IF f = 0 THEN <<s>> ELSE <<Upto(s, f - 1)>> \o Split(From(s, f + Len(k)), k)

(* for C: each NUL written as \0 (two characters) *)
RECURSIVE ForC(_)
ForC(s) == IF s = <<>> THEN <<>> ELSE (IF s[1] = 0 THEN <<92, 48>> ELSE <<s[1]>>) \o ForC(Tail(s))
UptoNul(s) == LET k == FindB(s, 1, 0) IN IF k = 0 THEN s ELSE Upto(s, k - 1)

Want(a, b, cap) ==
  LET c == UptoNul(b)
      room == Min2(cap, Len(b))
  IN [cmp |-> Cmp(a, b), eq |-> a = b, cmpnc |-> CmpNoCase(a, b), eqnc |-> LowerSeq(a) = LowerSeq(b),
      cmpnct |-> CmpNoCase(DropEnds(a, IsAsciiWs), b), cmpncz |-> CmpNoCase(NoZero(a), b), eqncz |-> LowerSeq(NoZero(a)) = LowerSeq(b),
      cmpnczt |-> CmpNoCase(NoZero(DropEnds(a, IsSpace)), b),
      add |-> a \o b, noex |-> a \o Upto(b, room),
      starts |-> Starts(a, b), startsnc |-> StartsNoCase(a, 1, b),
      find |-> Find(a, b), findnc |-> FindNoCase(a, b), findncz |-> FindNoCaseNoZero(a, b),
      split |-> IF b = <<>> THEN <<>> ELSE Split(a, b),
      ccmp |-> Cmp(a, c), ccmpnc |-> CmpNoCase(a, c), cdup |-> c, cstr |-> ForC(a)]

(* a table of (key, position): the place of the first entry under each of the keys, -1 if none *)
FirstOf(keys, key, Eq(_, _)) == LET js == {j \in 1..Len(keys) : Eq(keys[j], key)} IN IF js = {} THEN -1 ELSE (CHOOSE j \in js : \A x \in js : j <= x) - 1
WantTable(keys, ask) ==
  [size |-> Len(keys),
   get |-> [i \in 1..Len(ask) |-> FirstOf(keys, ask[i], LAMBDA k, q : LowerSeq(DropEnds(k, IsAsciiWs)) = LowerSeq(q))],
   hget |-> [i \in 1..Len(ask) |-> FirstOf(keys, ask[i], LAMBDA k, q : LowerSeq(DropEnds(k, IsAsciiWs)) = LowerSeq(q))],
   hgetz |-> [i \in 1..Len(ask) |-> FirstOf(keys, ask[i], LAMBDA k, q : LowerSeq(NoZero(DropEnds(k, IsSpace))) = LowerSeq(q))],
   at |-> keys]
=============================================================================
