----------------------------- MODULE Structure -----------------------------
(***************************************************************************)
(* Hashes, lists, strings and counters on top of transactions.  The state   *)
(* maps <<prefix, kind, name>> to a hash (field |-> value), a list          *)
(* (sequence of values) or a string value; an empty hash or list is absent. *)
(* A value is [b |-> bytes, n |-> the integer the bytes spell, or Nan].     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Lex, Int64

VARIABLES st,    \* committed structures
          ver,   \* number of commits that wrote something
          tx     \* open transactions: id |-> [snap, ver, cur, log]
svars == <<st, ver, tx>>

Nan == <<>>
NullF == <<>>
Upd(S, c, x) == (c :> x) @@ S
Rem(S, c) == [y \in DOMAIN S \ {c} |-> S[y]]
HashOf(S, c) == IF c \in DOMAIN S THEN S[c] ELSE NullF
ListOf(S, c) == IF c \in DOMAIN S THEN S[c] ELSE <<>>
PutHash(S, c, h) == IF h = NullF THEN Rem(S, c) ELSE Upd(S, c, h)
PutList(S, c, l) == IF l = <<>> THEN Rem(S, c) ELSE Upd(S, c, l)
RevSeq(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Fields(h) == Sorted(DOMAIN h)
FieldsDesc(h) == RevSeq(Sorted(DOMAIN h))
Pairs(h, fs) == [i \in 1..Len(fs) |-> [f |-> fs[i], v |-> h[fs[i]].b]]
TakeN(s, n) == IF n <= 0 THEN <<>> ELSE IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n)
RECURSIVE PushLeft(_, _)
PushLeft(l, vs) == IF vs = <<>> THEN l ELSE PushLeft(<<Head(vs)>> \o l, Tail(vs))
DelFields(h, fs) == [y \in DOMAIN h \ {fs[i] : i \in 1..Len(fs)} |-> h[y]]
Bs(l) == [i \in 1..Len(l) |-> l[i].b]
Pos(l, i) == IF i >= 0 THEN i + 1 ELSE Len(l) + i + 1

HOps == {"hset","hget","hinc","hgetint","hsetint","hlen","hdel","hkeys","hgetn","hgetndesc","hgetall","hclear"}
LOps == {"lpush","rpush","lpop","rpop","llen","lgetall","lindex","lset","lclear"}
SOps == {"sset","ssetint","sget","sgetint","sinc","sclear"}
Cell(op) == <<op.p, IF op.e \in HOps THEN "h" ELSE IF op.e \in LOps THEN "l" ELSE "s", op.n>>

(* The outcomes of an operation on the structures S: the new structures and what is reported. *)
O(S)        == {[S |-> S, r |-> "ok"]}
Err(S, r)   == {[S |-> S, r |-> r]}
NF(S)       == Err(S, "notfound")
IncTo(S2, i) == {[S |-> S2, r |-> "ok", i |-> i]}
Num(b, i)   == [b |-> b, n |-> i]

Outs(S, op) ==
  IF op.e = "raw" THEN \* the raw keys in the store, as this transaction sees it: none iff there are no structures
    {[S |-> S, r |-> "ok", some |-> DOMAIN S # {}]}
  ELSE
  LET c == Cell(op)
      h == HashOf(S, c)
      l == ListOf(S, c)
      has == c \in DOMAIN S
      e == op.e
  IN
  CASE e \in {"hset", "hsetint"} -> O(PutHash(S, c, Upd(h, op.f, op.val)))
    [] e = "hget"    -> IF op.f \in DOMAIN h THEN {[S |-> S, r |-> "ok", v |-> h[op.f].b]} ELSE NF(S)
    [] e = "hgetint" -> IF op.f \notin DOMAIN h THEN NF(S)
                        ELSE IF h[op.f].n = Nan THEN Err(S, "err") ELSE {[S |-> S, r |-> "ok", i |-> h[op.f].n]}
    [] e = "hinc"    ->
         IF op.f \notin DOMAIN h THEN IncTo(Upd(S, c, Upd(h, op.f, Num(op.b, op.step))), op.step)
         ELSE IF h[op.f].b = "" THEN \* an empty value may count as zero or as no number
           Err(S, "err") \cup IncTo(Upd(S, c, Upd(h, op.f, Num(op.b, op.step))), op.step)
         ELSE IF h[op.f].n = Nan THEN Err(S, "err")
         ELSE LET i == Add64(h[op.f].n, op.step) IN IncTo(Upd(S, c, Upd(h, op.f, Num(op.b, i))), i)
    [] e = "hlen"    -> {[S |-> S, r |-> "ok", c |-> Cardinality(DOMAIN h)]}
    [] e = "hdel"    -> O(PutHash(S, c, DelFields(h, op.fs)))
    [] e = "hkeys"   -> {[S |-> S, r |-> "ok", fs |-> Fields(h)]}
    [] e = "hgetn"   -> {[S |-> S, r |-> "ok", ps |-> Pairs(h, TakeN(Fields(h), op.c))]}
    [] e = "hgetndesc" -> {[S |-> S, r |-> "ok", ps |-> Pairs(h, TakeN(FieldsDesc(h), op.c))]}
    [] e = "hgetall" -> {[S |-> S, r |-> "ok", ps |-> Pairs(h, Fields(h))]}
    [] e \in {"hclear", "lclear", "sclear"} -> O(Rem(S, c))
    [] e = "lpush"   -> O(PutList(S, c, PushLeft(l, op.vals)))
    [] e = "rpush"   -> O(PutList(S, c, l \o op.vals))
    [] e = "lpop"    -> IF l = <<>> THEN NF(S) ELSE {[S |-> PutList(S, c, Tail(l)), r |-> "ok", v |-> Head(l).b]}
    [] e = "rpop"    -> IF l = <<>> THEN NF(S) ELSE {[S |-> PutList(S, c, SubSeq(l, 1, Len(l) - 1)), r |-> "ok", v |-> l[Len(l)].b]}
    [] e = "llen"    -> {[S |-> S, r |-> "ok", c |-> Len(l)]}
    [] e = "lgetall" -> {[S |-> S, r |-> "ok", vs |-> Bs(RevSeq(l))]}
    [] e = "lindex"  -> LET q == Pos(l, op.c) IN IF q \in 1..Len(l) THEN {[S |-> S, r |-> "ok", v |-> l[q].b]} ELSE NF(S)
    [] e = "lset"    -> LET q == Pos(l, op.c) IN IF q \in 1..Len(l) THEN O(Upd(S, c, [l EXCEPT ![q] = op.val])) ELSE NF(S)
    [] e \in {"sset", "ssetint"} -> O(Upd(S, c, op.val))
    [] e = "sget"    -> IF has THEN {[S |-> S, r |-> "ok", v |-> S[c].b]} ELSE NF(S)
    [] e = "sgetint" -> IF ~has THEN NF(S) ELSE IF S[c].n = Nan THEN Err(S, "err") ELSE {[S |-> S, r |-> "ok", i |-> S[c].n]}
    [] e = "sinc"    -> IF ~has THEN IncTo(Upd(S, c, Num(op.b, op.step)), op.step)
                        ELSE IF S[c].n = Nan THEN Err(S, "err")
                        ELSE LET i == Add64(S[c].n, op.step) IN IncTo(Upd(S, c, Num(op.b, i)), i)
    [] OTHER         -> {}

\* the new structures when what the event reports is an allowed outcome, else none
Eval(S, ev) == {o.S : o \in {x \in Outs(S, ev) : x.r = ev.r /\ \A k \in DOMAIN x \ {"S"} : ev[k] = x[k]}}

\* a key that a listing did not deliver is not among those the store watches for conflicts
Listing(ev) == ev.e \in {"hkeys", "hgetn", "hgetndesc", "hgetall", "raw"}
RECURSIVE Replay(_, _)
Replay(S, log) == \* the states reachable by repeating the logged operations with the same results
  IF log = <<>> THEN {S}
  ELSE UNION {Replay(S2, Tail(log)) : S2 \in Eval(S, Head(log))}

SInit0 == st = NullF /\ tx = NullF /\ ver = 0
SReset == st' = NullF /\ tx' = NullF /\ ver' = 0
SBegin(t) == t \notin DOMAIN tx /\ tx' = Upd(tx, t, [snap |-> st, ver |-> ver, cur |-> st, log |-> <<>>]) /\ UNCHANGED <<st, ver>>
SOp(t, ev) == /\ t \in DOMAIN tx
              /\ \E S2 \in Eval(tx[t].cur, ev) :
                   tx' = [tx EXCEPT ![t].cur = S2, ![t].log = IF Listing(ev) THEN @ ELSE Append(@, ev)]
              /\ UNCHANGED <<st, ver>>
SCommit(t, r) ==
  /\ t \in DOMAIN tx /\ tx' = Rem(tx, t)
  /\ \/ r = "ok" /\ ver' = ver + 1
        /\ IF ver = tx[t].ver THEN st' = tx[t].cur
           ELSE \/ st' \in Replay(st, tx[t].log)
                \/ tx[t].cur = tx[t].snap /\ UNCHANGED st  \* changed nothing: it took effect when it began
     \/ r = "conflict" /\ ver > tx[t].ver /\ UNCHANGED <<st, ver>>
SDiscard(t) == t \in DOMAIN tx /\ tx' = Rem(tx, t) /\ UNCHANGED <<st, ver>>
=============================================================================
