------------------------------ MODULE MCRemote ------------------------------
(* Bounded instance of Remote.tla: exhaustive checking of what sessions may   *)
(* rely on, and generation of behaviours replayed against the real pair.      *)
EXTENDS Remote, Json
CONSTANTS Keys, Vals, Txns, Cls, Cap, MaxClock, MaxBreak, Depth, Emit
VARIABLES hist, brk, \* brk: how often something broke
          old        \* t |-> the stores there were since its begin
mvars == <<rvars, hist, brk, old>>
K1Keys == {<<1>>}
K2Keys == {<<1>>, <<1, 255>>}
K3Keys == {<<1>>, <<1, 255>>, <<255>>}
Look(m, k) == IF k \in DOMAIN m THEN m[k] ELSE NoEntry
Some(S) == IF Emit THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S
H(o) == hist' = IF Emit THEN Append(hist, o) ELSE hist
Note == old' = [t \in DOMAIN pend' |-> IF t \in DOMAIN old THEN old[t] \cup {db'} ELSE {db'}]
E(v) == [v |-> v, tag |-> 0, exp |-> "none"]
EnOf(t, k) == IF Usable(t) THEN Look(View(t), k) ELSE NoEntry
Rs == {"ok", "err", "notfound", "conflict", "toobig"}
\* sessions known to work; transactions of theirs, or such that are over
Upc == {c \in Cls : conn[c] = "up"}
Tx == {t \in DOMAIN txns : conn[sess[t]] = "up" \/ ~Open(t)}
Seldom(n) == Emit => RandomElement(1..n) = 1
Mostly(T) == IF Emit /\ \E t \in T : Open(t) THEN IF RandomElement(1..12) = 1 THEN T ELSE {t \in T : Open(t)} ELSE T
Busy == Emit /\ Cardinality(DOMAIN pend \cup {t \in DOMAIN txns : Open(t)}) > 2
Calm == UNCHANGED brk

MInit == /\ KVInit("remote") /\ pend = Empty /\ sess = Empty /\ up = TRUE /\ cap = Cap
         /\ conn = [c \in Cls |-> "up"] /\ hist = <<>> /\ brk = 0 /\ old = Empty
Point(t, c) ==
  \/ \E k \in Some(Keys), r \in Rs : \E en \in {EnOf(t, k)} : RGet(c, t, k, r, en.v, en.tag, en.exp) /\ H([e |-> "get", c |-> c, t |-> t, k |-> k])
  \/ \E k \in Some(Keys), r \in Rs, b \in BOOLEAN : r # "err" /\ RExists(c, t, k, r, b) /\ H([e |-> "exists", c |-> c, t |-> t, k |-> k])
  \/ \E k \in Some(Keys), v \in Some(Vals), r \in Rs : RSet(c, t, k, v, FALSE, 0, "none", r)
        /\ H([e |-> "set", c |-> c, t |-> t, k |-> k, v |-> v])
  \/ \E k \in Some(Keys), r \in Rs : RDelete(c, t, k, r) /\ H([e |-> "delete", c |-> c, t |-> t, k |-> k])
  \/ Emit /\ Usable(t) /\ \E rev \in Some(BOOLEAN), n \in Some({1, 2}) : \E view \in {View(t)} : \E ks \in {ScanKeys(view, rev, <<>>, FALSE, <<>>, n)} :
       /\ RScan(c, t, rev, <<>>, FALSE, <<>>, n, "ok", [i \in 1..Len(ks) |-> [k |-> ks[i], v |-> view[ks[i]].v, tag |-> view[ks[i]].tag, exp |-> view[ks[i]].exp]])
       /\ H([e |-> "scan", c |-> c, t |-> t, rev |-> rev, stop |-> n])
Step ==
  \/ ~Busy /\ \E t \in Txns, c \in Some(Cls), u \in Some(BOOLEAN) : (\A s \in Txns : s < t => s \in DOMAIN sess) /\ t \notin DOMAIN sess
        /\ RBegin(c, t, u, "ok") /\ H([e |-> "begin", c |-> c, t |-> t, upd |-> u]) /\ Calm
  \/ \E t \in DOMAIN pend : conn[sess[t]] = "up" /\ First(t) /\ UNCHANGED hist /\ Calm
  \/ \E t \in Some(Mostly(Tx)) : Point(t, sess[t]) /\ Calm
  \/ \E c \in Some(Upc) : Point(0, c) /\ Calm
  \/ \E t \in Some(Mostly({s \in DOMAIN pend \cup DOMAIN txns : conn[sess[s]] = "up" \/ s \in DOMAIN pend \/ ~Open(s)})), r \in {"ok", "err", "conflict"} :
        RCommit(sess[t], t, r) /\ H([e |-> "commit", c |-> sess[t], t |-> t]) /\ Calm
  \/ Seldom(2) /\ \E t \in Some(Mostly(DOMAIN pend \cup DOMAIN txns)) : RDiscard(sess[t], t, "ok") /\ H([e |-> "discard", c |-> sess[t], t |-> t]) /\ Calm
  \/ \E c \in Some({x \in Cls : conn[x] = "maybe"}) : Sync(c, "ok") /\ H([e |-> "sync", c |-> c]) /\ Calm
  \/ brk < MaxBreak /\ Seldom(2) /\ brk' = brk + 1 /\
       \/ \E c \in Some(Upc) : Break(c) /\ H([e |-> "break", c |-> c])
       \/ \E c \in Some(Upc) : \E t \in Some({0} \cup Of(c)), op \in Some({"get", "set", "delete", "commit", "discard"}), m \in Some({"before", "mid", "after"}), k \in Some(Keys), v \in Some(Vals), r \in {"ok", "err"} :
             /\ (t = 0 => op \in {"get", "set", "delete"})
             /\ (t # 0 /\ op \in {"set", "delete"} => txns[t].upd)
             /\ Lost(c, op, t, k, IF op = "delete" THEN NoEntry ELSE E(v), m, r)
             /\ H([e |-> "lost", c |-> c, t |-> t, op |-> op, mode |-> m, k |-> k, v |-> v])
       \/ up /\ Seldom(6) /\ Stop("ok") /\ H([e |-> "stop"])
  \/ ~up /\ Start("ok") /\ H([e |-> "start"]) /\ Calm
  \/ \E c \in Some(Cls) : \E t \in {0} \cup {x \in DOMAIN txns : sess[x] = c} : ~Emit /\ conn[c] = "up" /\ Malformed(c, t, FALSE) /\ UNCHANGED <<hist, brk>>
  \/ Emit /\ Seldom(3) /\ Idle(Cardinality({t \in DOMAIN txns : Open(t)})) /\ H([e |-> "idle"]) /\ Calm
MNext == IF Emit /\ Len(hist) >= Depth THEN PrintT("BEH " \o ToJson(hist)) /\ FALSE ELSE Step /\ Note
MSpec == MInit /\ [][MNext]_mvars
Bound == clock <= MaxClock
NoHist == <<rvars, brk, old>>

\* ---- laws
TypeOK == /\ DOMAIN pend \cap DOMAIN txns = {} /\ (DOMAIN pend \cup DOMAIN txns) \subseteq DOMAIN sess
          /\ \A t \in DOMAIN txns : ~txns[t].upd => txns[t].w = Empty
Capped == cap > 0 => \A t \in DOMAIN txns : Cardinality(DOMAIN txns[t].w) <= cap
\* every open transaction belongs to a session whose connection still stands
NoOrphans == \A t \in DOMAIN txns : Open(t) => up /\ conn[sess[t]] # "down"
\* a transaction sees the store as it was at one moment between its begin and its first operation
SnapshotOfItsTime == [][\A t \in DOMAIN pend : t \in DOMAIN txns' => txns'[t].snap \in old[t]]_rvars
OneStep == [][clock' <= clock + 1 /\ (clock' = clock => db' = db)]_rvars
\* what breaks ends the transactions of that session only, and writes nothing of them partly
OnlyMine == [][\A t \in DOMAIN txns : Open(t) /\ t \in DOMAIN txns' /\ txns'[t].st = "aborted" /\ up' = up
                 => \A s \in DOMAIN txns : s # t /\ Open(s) /\ ~(s \in DOMAIN txns' /\ txns'[s].st = "open") => sess[s] = sess[t]]_rvars
Whole == [][clock' = clock + 1 => \E w \in {txns[t].w : t \in {s \in DOMAIN txns : Open(s)}} \cup
                {k :> e : k \in Keys, e \in {E(v) : v \in Vals} \cup {NoEntry}} : db' = Apply(db, w)]_rvars
Serial == [][\A t \in DOMAIN txns : Open(t) /\ t \in DOMAIN txns' /\ txns'[t].st = "committed" /\ txns[t].w # Empty
                => \A k \in txns[t].rd : Look(txns[t].snap, k) = Look(db, k)]_rvars
Survives == [][up' # up => db' = db]_rvars
=============================================================================
