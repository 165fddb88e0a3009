------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* Key and number codecs.                                                   *)
(* Part 1: the memory-comparable byte-string format (groups of G bytes, a   *)
(*   marker telling how much of the group is padding), its decoder, and the *)
(*   number formats, over an alphabet 0..M.                                 *)
(* Part 2: the order of the values themselves, independent of any format.   *)
(* Part 3: key successors.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Lex, Int64

\* ---------------------------------------------------------------- part 1
Zeros(n) == [i \in 1..n |-> 0]
RECURSIVE EncB(_, _, _)
EncB(s, G, M) == IF Len(s) >= G THEN SubSeq(s, 1, G) \o <<M>> \o EncB(SubSeq(s, G + 1, Len(s)), G, M)
                 ELSE s \o Zeros(G - Len(s)) \o <<M - (G - Len(s))>>
Inv(s, M) == [i \in 1..Len(s) |-> M - s[i]]
\* decoding: [ok, v, rest]
Bad == [ok |-> FALSE, v |-> <<>>, rest |-> <<>>]
RECURSIVE DecB(_, _, _)
DecB(b, G, M) ==
  IF Len(b) < G + 1 THEN Bad
  ELSE LET pad == M - b[G + 1] IN
       IF pad > G THEN Bad
       ELSE IF pad = 0 THEN LET d == DecB(SubSeq(b, G + 2, Len(b)), G, M) IN
                            IF d.ok THEN [d EXCEPT !.v = SubSeq(b, 1, G) \o @] ELSE Bad
       ELSE IF \E i \in (G - pad + 1)..G : b[i] # 0 THEN Bad
       ELSE [ok |-> TRUE, v |-> SubSeq(b, 1, G - pad), rest |-> SubSeq(b, G + 2, Len(b))]
DecBDesc(b, G, M) == DecB(Inv(b, M), G, M)

\* varints: value bits in groups of seven, lowest first, the high bit says more follow
Bit(x, i) == (x \div (2^i)) % 2
UBits(u) == [i \in 1..64 |-> IF i <= 24 THEN Bit(u[3], i - 1) ELSE IF i <= 48 THEN Bit(u[2], i - 25) ELSE Bit(u[1] % 65536, i - 49)]
\* zig-zag: the sign moves to the lowest bit
ZBits(v) == LET b == UBits(v) IN [i \in 1..64 |-> IF i = 1 THEN b[64] ELSE (b[i - 1] + b[64]) % 2]
Group7(b, k) == LET g(j) == IF 7 * k + j <= 64 THEN b[7 * k + j] ELSE 0 IN g(1) + 2*g(2) + 4*g(3) + 8*g(4) + 16*g(5) + 32*g(6) + 64*g(7)
\* s is a (possibly over-long) varint of the number with these bits
IsVarint(s, bits) == /\ Len(s) \in 1..10
                     /\ \A i \in 1..Len(s) : (i < Len(s)) = (s[i] >= 128) /\ s[i] % 128 = Group7(bits, i - 1)
                     /\ \A k \in Len(s)..9 : Group7(bits, k) = 0
BE8(u) == LET a == u[1] % 65536 IN <<a \div 256, a % 256, u[2] \div 65536, (u[2] \div 256) % 256, u[2] % 256, u[3] \div 65536, (u[3] \div 256) % 256, u[3] % 256>>

\* ---------------------------------------------------------------- part 2
\* floats: sg 0/1, m the magnitude (exponent above mantissa, infinity last); both zeros are equal
FZero(f) == f.m = Zero64
FLt(f, g) == IF FZero(f) /\ FZero(g) THEN FALSE
             ELSE IF f.sg # g.sg THEN f.sg > g.sg
             ELSE IF f.sg = 0 THEN Lt64(f.m, g.m) ELSE Lt64(g.m, f.m)
FEq(f, g) == f = g \/ (FZero(f) /\ FZero(g))
Bytes == {"bytes", "bytesdesc", "compactbytes"}
Floats == {"float64", "float64desc"}
Pairs2 == {"tuple", "dockey", "indexname", "indexnamelegacy"}
Lt(c, a, b) ==
  CASE c \in Bytes -> LexLt(a, b)
    [] c \in Floats -> FLt(a, b)
    [] c = "tuple" -> \* bytes ascending, then integer descending, then bytes ascending
         LexLt(a[1], b[1]) \/ (a[1] = b[1] /\ (Lt64(b[2], a[2]) \/ (a[2] = b[2] /\ LexLt(a[3], b[3]))))
    [] c = "dockey" -> Lt64(a[1], b[1]) \/ (a[1] = b[1] /\ Lt64(a[2], b[2]))
    [] c \in {"indexname", "indexnamelegacy"} -> Lt64(a[1], b[1]) \/ (a[1] = b[1] /\ LexLt(a[2], b[2]))
    [] OTHER -> Lt64(a, b)
Eq(c, a, b) == IF c \in Floats THEN FEq(a, b) ELSE a = b
Desc == {"bytesdesc", "int64desc", "uint64desc", "uint8desc", "float64desc"}
\* neighbours in a list of values (ascending) and of their encodings
Ordered(c, a, b, ea, eb) == IF Eq(c, a, b) THEN ea = eb
                            ELSE Lt(c, a, b) /\ (IF c \in Desc THEN LexLt(eb, ea) ELSE LexLt(ea, eb))

\* ---------------------------------------------------------------- part 3
NextOf(k) == k \o <<0>>
AllMax(k, M) == \A i \in 1..Len(k) : k[i] = M
LastLow(k, M) == CHOOSE i \in 1..Len(k) : k[i] # M /\ \A j \in (i + 1)..Len(k) : k[j] = M
PNext(k, M) == LET i == LastLow(k, M) IN [j \in 1..Len(k) |-> IF j < i THEN k[j] ELSE IF j = i THEN k[j] + 1 ELSE 0]
PNextShort(k, M) == LET i == LastLow(k, M) IN SubSeq(PNext(k, M), 1, i)
IsPoint(s, e, M) == e = NextOf(s) \/ (~AllMax(s, M) /\ e = PNext(s, M))
=============================================================================
