---------------------------- MODULE MCStructure ----------------------------
(* Bounded instance of Structure: invariants, and a source of programs.      *)
EXTENDS Structure, Json
CONSTANTS MaxVer, Depth, Txs, Names, Kinds, Emit
VARIABLE hist
mvars == <<svars, hist>>

N1 == {<<97>>}
N3 == {<<>>, <<97>>, <<97, 0>>}
Pfxs == {<<>>, <<1>>}
Fs == {<<>>, <<97>>}
Vals == {[b |-> "", n |-> Nan], [b |-> "35", n |-> I64(5)], [b |-> "ff00", n |-> Nan]}
C(e) == [e : {e}, p : Pfxs, n : Names]
CF(e) == [e : {e}, p : Pfxs, n : Names, f : Fs]
Steps == IF Emit THEN {One64, I64(-6), Zero64, <<-32768, 0, 0>>, <<32767, B24-1, B24-1>>} ELSE {One64}
Idx == {0, -1, 1, -2}
HashOps == UNION {
  [e : {"hset"}, p : Pfxs, n : Names, f : Fs, val : Vals], CF("hget"), CF("hgetint"),
  [e : {"hinc"}, p : Pfxs, n : Names, f : Fs, step : Steps, b : {"?"}],
  [e : {"hdel"}, p : Pfxs, n : Names, fs : {<<<<>>>>, <<<<97>>, <<>>>>, <<<<97>>, <<97>>>>}],
  C("hlen"), C("hkeys"), C("hgetall"), C("hclear"),
  [e : {"hgetn", "hgetndesc"}, p : Pfxs, n : Names, c : {1}]}
ListOps == UNION {
  [e : {"lpush", "rpush"}, p : Pfxs, n : Names, vals : {<<v>> : v \in Vals} \cup {<<[b |-> "01", n |-> Nan], [b |-> "02", n |-> Nan]>>}],
  C("lpop"), C("rpop"), C("llen"), C("lgetall"), C("lclear"),
  [e : {"lindex"}, p : Pfxs, n : Names, c : Idx],
  [e : {"lset"}, p : Pfxs, n : Names, c : Idx, val : Vals]}
StringOps == UNION {
  [e : {"sset"}, p : Pfxs, n : Names, val : Vals], C("sget"), C("sgetint"), C("sclear"),
  [e : {"sinc"}, p : Pfxs, n : Names, step : Steps, b : {"?"}]}
Ops == (IF "h" \in Kinds THEN HashOps ELSE {}) \cup (IF "l" \in Kinds THEN ListOps ELSE {}) \cup (IF "s" \in Kinds THEN StringOps ELSE {})

H(x) == hist' = IF Emit THEN Append(hist, x) ELSE hist
MInit == SInit0 /\ hist = <<>>
Out == Len(hist) >= Depth /\ PrintT("BEH " \o ToJson(hist)) /\ hist' = <<>> /\ SReset
\* without conflicts on keys in this model: any commit may fail once somebody else has committed
MNext ==
  IF Emit /\ Len(hist) >= Depth THEN Out
  ELSE
  \/ \E t \in Txs : SBegin(t) /\ H([e |-> "begin", t |-> t])
  \/ \E t \in DOMAIN tx : \E op \in Ops : \E o \in Outs(tx[t].cur, op) :
       /\ tx' = [tx EXCEPT ![t].cur = o.S, ![t].log = Append(@, o @@ op)]
       /\ UNCHANGED <<st, ver>> /\ H([op EXCEPT !.e = op.e] @@ [t |-> t])
  \/ \E t \in DOMAIN tx : \E r \in {"ok", "conflict"} : ver < MaxVer /\ SCommit(t, r) /\ H([e |-> "commit", t |-> t])
  \/ \E t \in DOMAIN tx : SDiscard(t) /\ H([e |-> "discard", t |-> t])
MSpec == MInit /\ [][MNext]_mvars

NoEmpty(S) == \A c \in DOMAIN S : c[2] \in {"h", "l"} => S[c] # <<>>
TypeOK == NoEmpty(st) /\ \A t \in DOMAIN tx : NoEmpty(tx[t].cur)
\* an operation touches at most its own cell, and an error changes nothing
Isolated == \A t \in DOMAIN tx : \A op \in Ops : \A o \in Outs(tx[t].cur, op) :
   LET S == tx[t].cur IN
   /\ \A c \in (DOMAIN S \cup DOMAIN o.S) \ {Cell(op)} : c \in DOMAIN S /\ c \in DOMAIN o.S /\ S[c] = o.S[c]
   /\ o.r # "ok" => o.S = S
\* laws tying the operations together
Laws == \A t \in DOMAIN tx : LET S == tx[t].cur IN
  \A c \in DOMAIN S : LET Q(x) == [p |-> c[1], n |-> c[3]] @@ x IN
   CASE c[2] = "h" -> /\ \A o \in Outs(S, Q([e |-> "hlen"])) : \A k \in Outs(S, Q([e |-> "hkeys"])) : \A a \in Outs(S, Q([e |-> "hgetall"])) :
                           o.c = Len(k.fs) /\ o.c = Len(a.ps) /\ o.c > 0 /\ \A i \in 1..Len(k.fs) : a.ps[i].f = k.fs[i]
                      /\ \A k \in Outs(S, Q([e |-> "hkeys"])) : \A o \in Outs(S, Q([e |-> "hdel", fs |-> k.fs])) : c \notin DOMAIN o.S
     [] c[2] = "l" -> /\ \A o \in Outs(S, Q([e |-> "llen"])) : o.c = Len(S[c]) /\ o.c > 0
                      /\ \A v \in Vals : \A o \in Outs(S, Q([e |-> "lpush", vals |-> <<v>>])) : \A q \in Outs(o.S, Q([e |-> "lpop"])) : q.S = S /\ q.v = v.b
                      /\ \A v \in Vals : \A o \in Outs(S, Q([e |-> "rpush", vals |-> <<v>>])) : \A q \in Outs(o.S, Q([e |-> "rpop"])) : q.S = S /\ q.v = v.b
     [] OTHER -> TRUE
Small(S) == \A c \in DOMAIN S : (c[2] = "l" => Len(S[c]) <= 2) /\ (c[2] # "l" => \A x \in {S[c]} : TRUE)
Tiny(i) == i = Nan \/ Le64(i, I64(2)) \/ (Le64(I64(5), i) /\ Le64(i, I64(6)))
SmallN(S) == \A c \in DOMAIN S : (c[2] = "h" => \A f \in DOMAIN S[c] : Tiny(S[c][f].n)) /\ (c[2] = "s" => Tiny(S[c].n))
Constr == \A t \in DOMAIN tx : Small(tx[t].cur) /\ SmallN(tx[t].cur)
\* one transaction at a time: its log does not matter
View == <<st, [t \in DOMAIN tx |-> <<tx[t].cur, tx[t].snap>>]>>
=============================================================================
