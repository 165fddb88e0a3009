-------------------------------- MODULE Lex --------------------------------
(* Byte strings are sequences of 0..255; lexicographic order is their order. *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC

LexLt(a, b) ==
  LET n == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
      D == {i \in 1..n : a[i] # b[i]}
  IN IF D = {} THEN Len(a) < Len(b)
     ELSE LET i == CHOOSE i \in D : \A j \in D : i <= j IN a[i] < b[i]
LexLe(a, b) == a = b \/ LexLt(a, b)
HasPrefix(k, p) == Len(p) <= Len(k) /\ SubSeq(k, 1, Len(p)) = p
Sorted(S) == SortSeq(SetToSeq(S), LexLt)
SortedDesc(S) == SortSeq(SetToSeq(S), LAMBDA a, b : LexLt(b, a))
Take(s, n) == IF n = 0 \/ Len(s) <= n THEN s ELSE SubSeq(s, 1, n)
Restrict2(f, S) == [x \in DOMAIN f \cap S |-> f[x]]
=============================================================================
