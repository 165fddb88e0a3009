--------------------------------- MODULE KV ---------------------------------
(***************************************************************************)
(* The abstract transactional key-value store every layer of mondis sits   *)
(* on: the two embedded providers ("badger", "leveldb") and the remote     *)
(* client/server pair ("remote").  Every action takes the arguments of one *)
(* public call and the result r it reported, and is enabled exactly when   *)
(* that result is allowed.                                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Lex

VARIABLES
  prov,   \* which store: "badger" | "leveldb" | "remote"
  db,     \* committed data: key |-> entry [v, tag, exp]
  clock,  \* number of commits so far
  mod,    \* key |-> clock value of the last commit that wrote it
  txns,   \* txn id |-> transaction record
  wbs     \* write batch id |-> pending writes
kvars == <<prov, db, clock, mod, txns, wbs>>

Empty == <<>>              \* the empty function
NoEntry == [v |-> "-", tag |-> 0, exp |-> "none"]
IsTxnStore == prov # "leveldb"
Put(f, k, x) == (k :> x) @@ f
Del(f, k) == [y \in DOMAIN f \ {k} |-> f[y]]
\* apply a function key |-> entry or NoEntry onto a map
Apply(m, w) == [k \in ((DOMAIN m \cup {x \in DOMAIN w : w[x] # NoEntry}) \ {x \in DOMAIN w : w[x] = NoEntry})
                  |-> IF k \in DOMAIN w THEN w[k] ELSE m[k]]

KVInit(p) == /\ prov = p /\ db = Empty /\ clock = 0 /\ mod = Empty /\ txns = Empty /\ wbs = Empty
KVReset(p) == /\ prov' = p /\ db' = Empty /\ clock' = 0 /\ mod' = Empty /\ txns' = Empty /\ wbs' = Empty

KeyOK(k) == prov = "leveldb" \/ Len(k) > 0
Open(t) == t \in DOMAIN txns /\ txns[t].st = "open"
\* what an operation of transaction t (0: outside any transaction) sees
View(t) == IF t = 0 THEN db ELSE Apply(txns[t].snap, txns[t].w)
Usable(t) == t = 0 \/ Open(t)
CommitWrites(w) == /\ db' = Apply(db, w)
                   /\ clock' = clock + 1
                   /\ mod' = [k \in DOMAIN w |-> clock + 1] @@ mod

Begin(t, upd, r) ==
  /\ IsTxnStore /\ t \notin DOMAIN txns
  /\ r = "ok"
  /\ txns' = Put(txns, t, [upd |-> upd, st |-> "open", start |-> clock, snap |-> db,
                           w |-> Empty, rd |-> {}, may |-> {}])
  /\ UNCHANGED <<prov, db, clock, mod, wbs>>

Read(t, ks) == \* record that transaction t observed the keys ks
  IF t = 0 \/ ~Open(t) \/ ~txns[t].upd THEN UNCHANGED txns
  ELSE txns' = [txns EXCEPT ![t].rd = @ \cup {k \in ks : k \notin DOMAIN txns[t].w},
                            ![t].may = @ \cup ks]

Get(t, k, r, v, tag, exp) ==
  /\ IF ~Usable(t) \/ ~KeyOK(k) THEN r = "err"
     ELSE IF k \in DOMAIN View(t) THEN r = "ok" /\ View(t)[k] = [v |-> v, tag |-> tag, exp |-> exp]
     ELSE r = "notfound"
  /\ Read(t, {k})
  /\ UNCHANGED <<prov, db, clock, mod, wbs>>

Exists(t, k, r, b) ==
  /\ IF ~Usable(t) \/ ~KeyOK(k) THEN r = "err"
     ELSE r = "ok" /\ b = (k \in DOMAIN View(t))
  /\ Read(t, {k})
  /\ UNCHANGED <<prov, db, clock, mod, wbs>>

Write(t, k, en, r) == \* en = NoEntry: delete
  /\ UNCHANGED <<prov, wbs>>
  /\ IF ~Usable(t) \/ ~KeyOK(k) \/ (t # 0 /\ ~txns[t].upd)
     THEN r = "err" /\ UNCHANGED <<db, clock, mod, txns>>
     ELSE /\ r = "ok"
          /\ IF t = 0 THEN CommitWrites(k :> en) /\ UNCHANGED txns
             ELSE txns' = [txns EXCEPT ![t].w = Put(@, k, en)] /\ UNCHANGED <<db, clock, mod>>

Set(t, k, v, meta, tag, ttl, r) ==
  IF meta /\ prov = "leveldb" THEN r = "err" /\ UNCHANGED kvars
  ELSE Write(t, k, [v |-> v, tag |-> tag, exp |-> ttl], r)
Delete(t, k, r) == Write(t, k, NoEntry, r)

\* writing k over and over until the transaction refuses to grow, and then another key: what
\* was accepted stays, what was refused is refused as too big and leaves no mark
Fill(t, k, en, r, k2, en2, r2) ==
  /\ Open(t) /\ txns[t].upd /\ KeyOK(k) /\ KeyOK(k2)
  /\ r \in {"ok", "toobig"} /\ r2 \in {"ok", "toobig"}
  /\ txns' = [txns EXCEPT ![t].w = IF r2 = "ok" THEN Put(Put(@, k, en), k2, en2) ELSE Put(@, k, en)]
  /\ UNCHANGED <<prov, db, clock, mod, wbs>>

\* the keys a scan delivers, in order
ScanKeys(view, rev, prefix, hasoff, off, stop) ==
  LET S == {k \in DOMAIN view : HasPrefix(k, prefix) /\ (hasoff => IF rev THEN LexLe(k, off) ELSE LexLe(off, k))}
  IN Take(IF rev THEN SortedDesc(S) ELSE Sorted(S), stop)

Scan(t, rev, prefix, hasoff, off, stop, r, es) ==
  /\ UNCHANGED <<prov, db, clock, mod, wbs>>
  /\ Usable(t)
  /\ IF rev /\ prov = "leveldb" THEN r = "err" /\ es = <<>> /\ UNCHANGED txns
     ELSE \E view \in {View(t)} : \E ks \in {ScanKeys(view, rev, prefix, hasoff, off, stop)} : \* (a LET would be re-evaluated)
             /\ r = "ok"
             /\ es = [i \in 1..Len(ks) |-> [k |-> ks[i], v |-> view[ks[i]].v, tag |-> view[ks[i]].tag, exp |-> view[ks[i]].exp]]
             /\ Read(t, {ks[i] : i \in 1..Len(ks)})

\* keys committed by others since transaction t began
Changed(t, ks) == {k \in ks : k \in DOMAIN mod /\ mod[k] > txns[t].start}

Finish(t, st) == [txns EXCEPT ![t] = [@ EXCEPT !.st = st, !.snap = Empty, !.w = Empty, !.rd = {}, !.may = {}]]
Commit(t, r) ==
  /\ Open(t)
  /\ UNCHANGED <<prov, wbs>>
  /\ LET x == txns[t] IN
     \/ /\ x.w = Empty /\ r = "ok"
        /\ txns' = Finish(t, "committed") /\ UNCHANGED <<db, clock, mod>>
     \/ /\ x.w # Empty /\ r = "ok" /\ Changed(t, x.rd) = {}
        /\ CommitWrites(x.w) /\ txns' = Finish(t, "committed")
     \/ /\ x.w # Empty /\ r = "conflict" /\ Changed(t, x.may) # {}
        /\ txns' = Finish(t, "aborted") /\ UNCHANGED <<db, clock, mod>>

Discard(t, r) ==
  /\ t \in DOMAIN txns /\ r = "ok"
  /\ txns' = IF Open(t) THEN Finish(t, "aborted") ELSE txns
  /\ UNCHANGED <<prov, db, clock, mod, wbs>>

WBNew(w, r) == r = "ok" /\ wbs' = Put(wbs, w, Empty) /\ UNCHANGED <<prov, db, clock, mod, txns>>
WBWrite(w, k, en, r) ==
  /\ IF KeyOK(k) THEN r = "ok" /\ wbs' = [wbs EXCEPT ![w] = Put(@, k, en)]
     ELSE r = "err" /\ UNCHANGED wbs
  /\ UNCHANGED <<prov, db, clock, mod, txns>>
WBCommit(w, r) == /\ r = "ok" /\ wbs' = Del(wbs, w) /\ UNCHANGED <<prov, txns>>
                  /\ IF wbs[w] = Empty THEN UNCHANGED <<db, clock, mod>> ELSE CommitWrites(wbs[w])
WBDiscard(w, r) == r = "ok" /\ wbs' = Del(wbs, w) /\ UNCHANGED <<prov, db, clock, mod, txns>>

\* closing and opening, or crashing and opening: exactly the committed data remains
Reopen(r) == /\ r = "ok" /\ txns' = Empty /\ wbs' = Empty
             /\ UNCHANGED <<prov, db, clock, mod>>

\* all entries with a short time-to-live have passed their expiry
Unexpired(m) == [k \in {x \in DOMAIN m : m[x].exp # "short"} |-> m[k]]
ExpireW(w) == [k \in DOMAIN w |-> IF w[k].exp = "short" THEN NoEntry ELSE w[k]]
Expire == /\ db' = Unexpired(db)
          /\ txns' = [t \in DOMAIN txns |-> [txns[t] EXCEPT !.snap = Unexpired(@), !.w = ExpireW(@)]]
          /\ wbs' = [w \in DOMAIN wbs |-> ExpireW(wbs[w])]
          /\ UNCHANGED <<prov, clock, mod>>

\* an image taken while writers commit groups of n keys (w,0..n-1), every group with one
\* round number: each group is whole, and no round acknowledged before the image is lost
LiveImage(r, got, acked, n) ==
  /\ r = "ok"
  /\ \A i \in 1..Len(acked) :
       LET mine == {j \in 1..Len(got) : got[j].w = i} IN
       \/ mine = {} /\ acked[i] = 0
       \/ /\ {got[j].i : j \in mine} = 0..(n-1)
          /\ \E rd \in {got[j].round : j \in mine} :
                rd >= acked[i] /\ \A j \in mine : got[j].round = rd
  /\ \A j \in 1..Len(got) : got[j].w \in 1..Len(acked)
  /\ UNCHANGED kvars
=============================================================================
