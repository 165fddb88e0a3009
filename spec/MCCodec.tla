------------------------------ MODULE MCCodec ------------------------------
(* Exhaustive checks of the formats on a small alphabet and group size, and  *)
(* the source of the values and malformed inputs replayed into the code.     *)
EXTENDS Codec, Json
CONSTANTS G, M, MaxLen, Emit
VARIABLE x
RECURSIVE Strs(_)
Strs(n) == IF n = 0 THEN {<<>>} ELSE LET S == Strs(n - 1) IN S \cup {Append(s, b) : s \in {t \in S : Len(t) = n - 1}, b \in 0..M}
U == Strs(MaxLen)
E(s) == EncB(s, G, M)
D(s) == Inv(EncB(s, G, M), M)
Init == IF Emit THEN x = <<>> ELSE x \in U
Next == FALSE /\ x' = x

RoundTrip == \A r \in Strs(1) : DecB(E(x) \o r, G, M) = [ok |-> TRUE, v |-> x, rest |-> r]
                             /\ DecBDesc(D(x) \o r, G, M) = [ok |-> TRUE, v |-> x, rest |-> Inv(r, M)]
Order == \A y \in U : x # y => (LexLt(x, y) <=> LexLt(E(x), E(y))) /\ (LexLt(x, y) <=> LexLt(D(y), D(x)))
SelfDelimiting == \A y \in U : x # y => ~HasPrefix(E(y), E(x))
\* read as input of the decoder
Canonical == LET d == DecB(x, G, M) IN d.ok => E(d.v) \o d.rest = x
Successor == LET n == NextOf(x) IN LexLt(x, n) /\ \A y \in U : ~(LexLt(x, y) /\ LexLt(y, n))
PrefixSuccessor == ~AllMax(x, M) => /\ \A y \in U : HasPrefix(y, x) => LexLt(y, PNext(x, M)) /\ LexLt(y, PNextShort(x, M))
                                    /\ \A y \in U : (Len(y) = Len(x) /\ LexLt(x, y)) => ~LexLt(y, PNext(x, M))
                                    /\ \A y \in U : (~HasPrefix(y, x) /\ LexLt(x, y)) => ~LexLt(y, PNextShort(x, M))
NoSuccessor == AllMax(x, M) => \A y \in U : LexLt(x, y) => HasPrefix(y, x)

\* ---- values and inputs for the real formats (groups of 8, alphabet 0..255)
Edge == {0, 1, 127, 128, 247, 254, 255}
Runs == {[i \in 1..n |-> b] : n \in {0, 1, 6, 7, 8, 9, 15, 16, 17, 24}, b \in {0, 97, 255}}
Tails == {<<>>} \cup {<<b>> : b \in Edge} \cup {<<255, 0>>, <<0, 0>>, <<0, 1>>}
BVals == {r \o t : r \in Runs, t \in Tails}
Sub(s, i, b) == [s EXCEPT ![i] = b]
Base == {EncB(s, 8, 255) : s \in {<<>>, <<97>>, <<97, 0>>, [i \in 1..7 |-> 97], [i \in 1..8 |-> 97], [i \in 1..9 |-> 0]}}
Malformed == UNION {UNION {{Sub(s, i, b) : b \in Edge \cup {8, 246, 248}} : i \in 1..Len(s)} \cup {SubSeq(s, 1, i) : i \in 0..Len(s)} \cup {s \o <<7>>} : s \in Base}
KeyVals == {<<>>} \cup {<<a>> : a \in Edge} \cup {<<a, b>> : a \in Edge, b \in Edge} \cup {<<a, b, c>> : a \in {0, 1, 254, 255}, b \in {0, 1, 254, 255}, c \in {0, 1, 254, 255}} \cup {<<123, 255, 255, 255>>, <<123, 254, 255, 255>>}
EmitAll == Emit => /\ \A v \in BVals : PrintT("BEH " \o ToJson([k |-> "b", v |-> v]))
                   /\ \A v \in Malformed : PrintT("BEH " \o ToJson([k |-> "m", v |-> v]))
                   /\ \A v \in KeyVals : PrintT("BEH " \o ToJson([k |-> "k", v |-> v]))
Spec == Init /\ [][Next]_x
=============================================================================
