------------------------------- MODULE Bytes -------------------------------
(* Byte strings are sequences of integers 0..255.  TLC evaluates this module's
   searches with the Java overrides of SequencesExt, so every scan is written
   as a SelectInSubSeq.                                                       *)
EXTENDS Integers, Sequences, SequencesExt, TLC

CR == 13   LF == 10   SP == 32   HT == 9   NUL == 0
COLON == 58   SLASH == 47   PCT == 37   QM == 63   HASH == 35   AT == 64
SEMI == 59   COMMA == 44   EQ == 61   AMP == 38   PLUS == 43   BSL == 92
DOT == 46   LBR == 91   RBR == 93   DQ == 34

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Ord == [c \in {SubSeq(Printable, i, i) : i \in 1..95} |->
          CHOOSE i \in 32..126 : SubSeq(Printable, i - 31, i - 31) = c]
(* the bytes of a printable string literal *)
B(s) == [i \in 1..Len(s) |-> Ord[SubSeq(s, i, i)]]

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

IsDigit(c) == c >= 48 /\ c <= 57
IsUpper(c) == c >= 65 /\ c <= 90
IsLower(c) == c >= 97 /\ c <= 122
IsAlpha(c) == IsUpper(c) \/ IsLower(c)
IsHex(c) == IsDigit(c) \/ (c >= 65 /\ c <= 70) \/ (c >= 97 /\ c <= 102)
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 THEN c - 87 ELSE c - 55
Lower(c) == IF IsUpper(c) THEN c + 32 ELSE c
(* isspace() of C: SP HT LF VT FF CR *)
IsSpace(c) == c = 32 \/ (c >= 9 /\ c <= 13)
(* u8::is_ascii_whitespace: no VT *)
IsAsciiWs(c) == c = 32 \/ c = 9 \/ c = 10 \/ c = 12 \/ c = 13
(* nom's is_space *)
IsBlank(c) == c = 32 \/ c = 9

LowerSeq(s) == [i \in 1..Len(s) |-> Lower(s[i])]
From(s, i) == SubSeq(s, i, Len(s))
Upto(s, i) == SubSeq(s, 1, i)

(* first position >= i whose byte satisfies T; 0 if none *)
FindP(s, i, T(_)) == IF i > Len(s) THEN 0 ELSE SelectInSubSeq(s, i, Len(s), T)
FindB(s, i, b) == IF i > Len(s) THEN 0 ELSE SelectInSubSeq(s, i, Len(s), LAMBDA c : c = b)
(* first position >= i whose byte does not satisfy T; Len+1 if none *)
Skip(s, i, T(_)) == IF i > Len(s) THEN Len(s) + 1
                    ELSE LET k == SelectInSubSeq(s, i, Len(s), LAMBDA c : ~T(c))
                         IN IF k = 0 THEN Len(s) + 1 ELSE k
(* last position whose byte does not satisfy T; 0 if none *)
LastNot(s, T(_)) == IF s = <<>> THEN 0 ELSE SelectLastInSeq(s, LAMBDA c : ~T(c))

HasByte(s, b) == FindB(s, 1, b) # 0
TrimStart(s) == From(s, Skip(s, 1, IsSpace))
TrimEnd(s) == Upto(s, LastNot(s, IsSpace))
Trim(s) == TrimEnd(TrimStart(s))
IsEolByte(c) == c = CR \/ c = LF
Chomp(s) == Upto(s, LastNot(s, IsEolByte))

StartsAt(s, i, p) == /\ i + Len(p) - 1 <= Len(s)
                     /\ \A k \in 1..Len(p) : s[i + k - 1] = p[k]
Starts(s, p) == StartsAt(s, 1, p)
StartsNoCase(s, i, p) == /\ i + Len(p) - 1 <= Len(s)
                         /\ \A k \in 1..Len(p) : Lower(s[i + k - 1]) = Lower(p[k])
(* first position of p in s from i on; 0 if none; p not empty *)
RECURSIVE FindSeq(_, _, _)
FindSeq(s, i, p) == LET k == FindB(s, i, p[1])
                    IN IF k = 0 THEN 0 ELSE IF StartsAt(s, k, p) THEN k ELSE FindSeq(s, k + 1, p)
NoZero(s) == SelectSeq(s, LAMBDA c : c # 0)
EqNoCase(a, b) == Len(a) = Len(b) /\ LowerSeq(a) = LowerSeq(b)
(* header lookups: stored name trimmed, NULs skipped, case ignored *)
EqNameNoZero(a, key) == LowerSeq(NoZero(Trim(a))) = LowerSeq(key)
EqName(a, key) == LowerSeq(Trim(a)) = LowerSeq(key)
ContainsNoCaseNoZero(s, lowkey) == FindSeq(LowerSeq(NoZero(s)), 1, lowkey) # 0
ContainsNoCase(s, lowkey) == FindSeq(LowerSeq(s), 1, lowkey) # 0

(* split at every byte b: always at least one (possibly empty) piece *)
RECURSIVE SplitOn(_, _)
SplitOn(s, b) == LET k == FindB(s, 1, b)
                 IN IF k = 0 THEN <<s>> ELSE <<Upto(s, k - 1)>> \o SplitOn(From(s, k + 1), b)
(* the search overrides of SequencesExt give absolute positions *)
ASSUME SelectInSubSeq(<<1, 2, 3, 2>>, 3, 4, LAMBDA c : c = 2) = 4

------------------------------------------------------------------------------
(* Numbers.  TLC integers have 32 bits: a value that is representable for the
   implementation (u64) but is 2^31-1 or more is BIG; no value is NONE.       *)
NONE == -1
BIG == -2
U64MAX == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
StripZeros(ds) == LET k == FindP(ds, 1, LAMBDA c : c # 0) IN IF k = 0 THEN <<>> ELSE From(ds, k)
RECURSIVE SmallDec(_, _, _, _)
SmallDec(ds, i, base, acc) == IF i > Len(ds) THEN acc
                              ELSE SmallDec(ds, i + 1, base, acc * base + ds[i])
RECURSIVE LexLe(_, _, _)
LexLe(a, b, i) == IF i > Len(a) THEN TRUE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LexLe(a, b, i + 1)
(* decimal digits (bytes) to u64: NONE on overflow *)
DecU64(bs) ==
  LET ds == StripZeros([i \in 1..Len(bs) |-> bs[i] - 48])
  IN IF Len(ds) > 20 \/ (Len(ds) = 20 /\ ~LexLe(ds, U64MAX, 1)) THEN NONE
     ELSE IF Len(ds) > 10 \/ (Len(ds) = 10 /\ ~LexLe(ds, <<2,1,4,7,4,8,3,6,4,6>>, 1)) THEN BIG
     ELSE SmallDec(ds, 1, 10, 0)
(* small decimal, at most limit, else NONE *)
DecMax(bs, limit) == LET n == DecU64(bs) IN IF n < 0 \/ n > limit THEN NONE ELSE n

(* arithmetic on lengths that may be BIG *)
AddLen(a, n) == IF a = BIG THEN BIG ELSE a + n
=============================================================================
