------------------------------ MODULE Sequence ------------------------------
(***************************************************************************)
(* Id sequences.  An observer state o says which ids are out, which were     *)
(* put back, and - as long as one instance is alone on the sequence and its  *)
(* position is known - which id must come next.  Obs(o, ev) is the set of    *)
(* observer states after the event ev; it is empty when ev must not happen.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Obs0 == [strict |-> TRUE,  \* look at gaps, closed sequences and bystanders too (Q02), not only at duplicates (Q01)
         used |-> {},    \* ids handed out and not put back since
         pb |-> <<>>,    \* instance |-> ids put back to it and not handed out again (function)
         open |-> {}, closed |-> {}, stale |-> {},
         solo |-> 0,     \* the only instance that acted since it was created
         last |-> 0,     \* the id before the one solo would hand out next; -1 unknown
         pend |-> TRUE,  \* the next fresh id must be last + 1
         cont |-> 1]     \* the first id a new instance must hand out; -1 unknown
PB(o, i) == IF i \in DOMAIN o.pb THEN o.pb[i] ELSE {}
SetPB(o, i, S) == [o EXCEPT !.pb = (i :> S) @@ o.pb]
Unsolo(o) == [o EXCEPT !.solo = 0, !.last = -1, !.pend = FALSE, !.cont = -1]
Fail(r) == r \in {"err", "conflict"}
IdsOf(rs) == UNION {(rs[k][1] + 1)..rs[k][2] : k \in 1..Len(rs)}
RECURSIVE SumOf(_)
SumOf(rs) == IF rs = <<>> THEN 0 ELSE (Head(rs)[2] - Head(rs)[1]) + SumOf(Tail(rs))

\* ids S (all of them fresh) handed out to i, from first to last
Fresh(o, i, conc, S, first, lst) ==
  LET o1 == [o EXCEPT !.used = @ \cup S]
  IN IF conc \/ i # o.solo THEN {Unsolo(o1)}
     ELSE IF o.strict /\ o.pend /\ o.last # -1 /\ first # o.last + 1 THEN {}
     ELSE {[o1 EXCEPT !.last = lst, !.pend = FALSE, !.cont = -1]}

Obs(o, ev) ==
  LET i == ev.i IN
  CASE ev.e = "crash" -> {[Unsolo(o) EXCEPT !.stale = @ \cup o.open, !.open = {}]}
    [] ev.e = "bystander" -> IF ev.same \/ ~o.strict THEN {o} ELSE {}
    [] ev.e = "new" ->
         IF ev.r = "ok" THEN {LET o1 == [o EXCEPT !.open = @ \cup {i}] IN
           IF ev.conc THEN Unsolo(o1)
           ELSE [o1 EXCEPT !.solo = i, !.last = IF o.cont = -1 THEN -1 ELSE o.cont - 1, !.pend = o.cont # -1, !.cont = -1]}
         ELSE IF Fail(ev.r) /\ ev.may THEN {Unsolo(o)} ELSE {}
    [] i \in o.stale -> {o}   \* the sequence was cleared or the process is gone: nothing is promised to it
    [] i \in o.closed /\ (o.strict \/ ev.r # "ok") -> IF ev.e = "putback" \/ ev.r = "closed" \/ (ev.r = "ok" /\ ev.e = "nextn" /\ ev.n <= 0 /\ ev.rs = <<>>) THEN {o} ELSE {}
    [] i \notin o.open /\ i \notin o.closed -> {}
    [] Fail(ev.r) -> IF ~ev.may THEN {}
                     ELSE LET o1 == Unsolo(o) IN
                          {IF ev.e = "close" THEN [o1 EXCEPT !.open = @ \ {i}, !.closed = @ \cup {i}] ELSE o1}
                          \* a failed clear may have taken effect; nothing is promised then to those who were there
                          \cup (IF ev.e # "clear" THEN {} ELSE {[o EXCEPT !.used = {}, !.pb = <<>>, !.stale = @ \cup o.open, !.open = {}, !.solo = 0, !.last = -1, !.pend = FALSE, !.cont = -1]})
    [] ev.r # "ok" -> {}
    [] ev.e = "next" ->
         IF ev.v < 1 THEN {}
         ELSE IF ev.v \in PB(o, i) THEN {SetPB([o EXCEPT !.used = @ \cup {ev.v}], i, PB(o, i) \ {ev.v})}
         \* what was given back comes out again before anything new does
         ELSE IF o.strict /\ ~ev.conc /\ PB(o, i) # {} THEN {}
         ELSE IF ev.v \in o.used \/ \E j \in DOMAIN o.pb : ev.v \in o.pb[j] THEN {}
         ELSE Fresh(o, i, ev.conc, {ev.v}, ev.v, ev.v)
    [] ev.e = "nextn" ->
         IF ev.n <= 0 THEN (IF ev.rs = <<>> THEN {o} ELSE {})
         ELSE IF \E k \in 1..Len(ev.rs) : ev.rs[k][1] < 0 \/ ev.rs[k][2] <= ev.rs[k][1] \/ ev.rs[k][2] - ev.rs[k][1] > ev.n THEN {}
         ELSE LET S == IdsOf(ev.rs) IN
           IF Cardinality(S) # ev.n \/ SumOf(ev.rs) # ev.n \/ S \cap o.used # {} THEN {}
           ELSE LET B == UNION {PB(o, j) : j \in DOMAIN o.pb} IN
             IF S \cap (B \ PB(o, i)) # {} THEN {}
             ELSE IF S \cap B # {} THEN {Unsolo(SetPB([o EXCEPT !.used = @ \cup S], i, PB(o, i) \ S))}
             ELSE Fresh(o, i, ev.conc, S, ev.rs[1][1] + 1, ev.rs[Len(ev.rs)][2])
    [] ev.e = "putback" -> IF ev.v \in o.used THEN {SetPB([o EXCEPT !.used = @ \ {ev.v}], i, PB(o, i) \cup {ev.v})} ELSE {}
    [] ev.e = "renew" -> {IF i = o.solo THEN [o EXCEPT !.last = -1, !.pend = FALSE, !.cont = -1] ELSE Unsolo(o)}
    [] ev.e = "release" -> {IF i = o.solo /\ o.last # -1 THEN [o EXCEPT !.pend = TRUE, !.cont = o.last + 1] ELSE Unsolo(o)}
    [] ev.e = "close" ->
         LET o1 == [o EXCEPT !.open = @ \ {i}, !.closed = @ \cup {i}] IN
         {IF i = o.solo /\ o.last # -1 /\ ev.rel THEN [o1 EXCEPT !.pend = TRUE, !.cont = o.last + 1, !.solo = 0] ELSE Unsolo(o1)}
    [] ev.e = "clear" -> {[o EXCEPT !.used = {}, !.pb = <<>>, !.stale = @ \cup (o.open \ {i}), !.open = {i}, !.solo = i, !.last = 0, !.pend = TRUE, !.cont = 1]}
    [] OTHER -> {}
=============================================================================
