------------------------------- MODULE Remote -------------------------------
(***************************************************************************)
(* The client/server pair: sessions (connections) of clients working on    *)
(* the one store of a server.  Transactions and single operations behave   *)
(* exactly as those of KV.tla; a transaction may take its snapshot at any  *)
(* time between its begin and its first operation.  Sessions break, send   *)
(* nonsense and lose answers; the server stops and starts.  Every action   *)
(* takes a call and the result reported and is enabled exactly when that   *)
(* result is allowed.                                                      *)
(***************************************************************************)
EXTENDS KV
CONSTANT MaxEntry

VARIABLES
  pend,  \* begun transactions that have not done anything: t |-> [upd, cands]; cands: the possible snapshots
  sess,  \* transaction |-> its session
  conn,  \* session |-> "up" | "maybe" (may be reconnecting) | "down" (the server is gone)
  up,    \* the server runs
  cap    \* how many keys the store lets one transaction write (0: any number)
rvars == <<kvars, pend, sess, conn, up, cap>>
net == <<sess, conn, up, cap>>

RInit == KVInit("remote") /\ pend = Empty /\ sess = Empty /\ conn = Empty /\ up = TRUE /\ cap = 0
RReset(p, n) == KVReset(p) /\ pend' = Empty /\ sess' = Empty /\ conn' = Empty /\ up' = TRUE /\ cap' = n

\* a client is created
Connect(c, r) == r = "ok" /\ conn' = Put(conn, c, IF up THEN "maybe" ELSE "down") /\ UNCHANGED <<kvars, pend, sess, up, cap>>
\* the harness waited until the session works
Sync(c, r) == up /\ r = "ok" /\ conn' = [conn EXCEPT ![c] = "up"] /\ UNCHANGED <<kvars, pend, sess, up, cap>>

RBegin(c, t, upd, r) ==
  /\ t \notin DOMAIN pend /\ t \notin DOMAIN txns /\ r = "ok"
  /\ pend' = Put(pend, t, [upd |-> upd, cands |-> {[clock |-> clock, db |-> db]}])
  /\ sess' = Put(sess, t, c)
  /\ UNCHANGED <<kvars, conn, up, cap>>
\* every change of the store is one more possible snapshot for those who have not looked yet
Grow == pend' = [t \in DOMAIN pend |-> IF clock' = clock THEN pend[t]
                   ELSE [pend[t] EXCEPT !.cands = @ \cup {[clock |-> clock', db |-> db']}]]
\* the first operation of t follows
First(t) ==
  /\ t \in DOMAIN pend
  /\ \E x \in pend[t].cands :
       txns' = Put(txns, t, [upd |-> pend[t].upd, st |-> "open", start |-> x.clock, snap |-> x.db, w |-> Empty, rd |-> {}, may |-> {}])
  /\ pend' = Del(pend, t)
  /\ UNCHANGED <<prov, db, clock, mod, wbs, net>>

\* ---- operations: answered as the store would, or with an error when the session may not work
Works(c, r) == conn[c] # "down" /\ conn' = IF r = "err" THEN conn ELSE [conn EXCEPT ![c] = "up"]
Fails(c, r) == conn[c] # "up" /\ r = "err" /\ UNCHANGED <<kvars, pend, conn>>
Wrap(c, r, A) == /\ UNCHANGED <<sess, up, cap>>
                 /\ \/ Works(c, r) /\ A /\ Grow
                    \/ Fails(c, r)
RGet(c, t, k, r, v, tag, exp) == Wrap(c, r, Get(t, k, r, v, tag, exp))
RExists(c, t, k, r, b) == Wrap(c, r, Exists(t, k, r, b))
\* one that may only read is refused at once, before it looks at anything
Refused(t, r) == r = "err" /\ UNCHANGED rvars
Full(t, k) == cap > 0 /\ t # 0 /\ Open(t) /\ txns[t].upd /\ KeyOK(k) /\ k \notin DOMAIN txns[t].w /\ Cardinality(DOMAIN txns[t].w) >= cap
RWrite(c, t, k, r, A) == IF t \in DOMAIN pend THEN ~pend[t].upd /\ Refused(t, r)
                         ELSE IF Full(t, k) THEN Wrap(c, r, r = "toobig" /\ UNCHANGED kvars)
                         ELSE Wrap(c, r, A)
RSet(c, t, k, v, meta, tag, ttl, r) == RWrite(c, t, k, r, Set(t, k, v, meta, tag, ttl, r))
RDelete(c, t, k, r) == RWrite(c, t, k, r, Delete(t, k, r))
Lim(n) == IF n > MaxEntry THEN MaxEntry ELSE n
RScan(c, t, rev, prefix, hasoff, off, limit, r, es) ==
  IF limit <= 0 THEN r = "ok" /\ es = <<>> /\ UNCHANGED rvars
  ELSE Wrap(c, r, IF Usable(t) THEN Scan(t, rev, prefix, hasoff, off, Lim(limit), r, es)
                  ELSE r = "err" /\ es = <<>> /\ UNCHANGED kvars)
\* one that never did anything has nothing to commit or discard
RCommit(c, t, r) ==
  IF t \in DOMAIN pend THEN r = "ok" /\ pend' = Del(pend, t) /\ UNCHANGED <<kvars, net>>
  ELSE IF ~txns[t].upd \/ Open(t)
       THEN IF Open(t) THEN /\ UNCHANGED <<sess, up, cap>>
                            /\ \/ Works(c, r) /\ Commit(t, r) /\ Grow
                               \* it cannot be reached (with nothing written nothing is lost)
                               \/ /\ conn[c] # "up" /\ (r = "err" \/ (r = "ok" /\ txns[t].w = Empty))
                                  /\ txns' = Finish(t, "aborted") /\ UNCHANGED <<prov, db, clock, mod, wbs, pend, conn>>
            ELSE r = "ok" /\ UNCHANGED rvars  \* reading only: nothing to commit
       ELSE r = "err" /\ UNCHANGED rvars
RDiscard(c, t, r) ==
  /\ r = "ok" /\ UNCHANGED net
  /\ IF t \in DOMAIN pend THEN pend' = Del(pend, t) /\ UNCHANGED kvars
     ELSE Discard(t, "ok") /\ UNCHANGED pend

\* ---- what breaks
Of(c) == {t \in DOMAIN txns : t \in DOMAIN sess /\ sess[t] = c /\ Open(t)}
Dead(T) == [t \in DOMAIN txns |-> IF t \in T THEN [txns[t] EXCEPT !.st = "aborted", !.snap = Empty, !.w = Empty, !.rd = {}, !.may = {}] ELSE txns[t]]
\* the store of the server fails the operation: the client is told, and the operation is without effect
Faulty(c, op, t, r) ==
  /\ conn[c] = "up" /\ r = "err"
  /\ txns' = IF op = "commit" THEN Finish(t, "aborted") ELSE txns
  /\ UNCHANGED <<prov, db, clock, mod, wbs, pend, net>>
\* the connection of session c is cut while nothing is under way
Break(c) == /\ conn' = [conn EXCEPT ![c] = "maybe"] /\ txns' = Dead(Of(c))
            /\ UNCHANGED <<prov, db, clock, mod, wbs, pend, sess, up, cap>>
\* ... or around one request: it may have been carried out unless it was cut before arriving
Lost(c, op, t, k, en, mode, r) ==
  /\ IF op = "discard" \/ (op = "commit" /\ ~txns[t].upd) THEN r = "ok" ELSE r = "err"
  /\ conn' = [conn EXCEPT ![c] = "maybe"]
  /\ txns' = Dead(Of(c))
  /\ \/ UNCHANGED <<db, clock, mod>>
     \/ mode = "after" /\ t = 0 /\ op \in {"set", "delete"} /\ KeyOK(k) /\ CommitWrites(k :> en)
     \/ mode = "after" /\ op = "commit" /\ Open(t) /\ Changed(t, txns[t].rd) = {} /\ txns[t].w # Empty /\ CommitWrites(txns[t].w)
  /\ Grow
  /\ UNCHANGED <<prov, wbs, sess, up, cap>>
\* a client sends what the server cannot understand (in transaction t, or t = 0): that transaction is
\* over (lenient: unless a server can make sense of it), and the others of the session may be
Malformed(c, t, lenient) ==
  /\ \E T \in {{t} \cap Of(c), Of(c)} \cup (IF lenient THEN {{}} ELSE {}) : txns' = Dead(T)
  /\ conn' = [conn EXCEPT ![c] = "maybe"]
  /\ UNCHANGED <<prov, db, clock, mod, wbs, pend, sess, up, cap>>
Stop(r) == /\ r = "ok" /\ up' = FALSE /\ conn' = [c \in DOMAIN conn |-> "down"]
           /\ txns' = Dead({t \in DOMAIN txns : Open(t)})
           /\ UNCHANGED <<prov, db, clock, mod, wbs, pend, sess, cap>>
Start(r) == /\ r = "ok" /\ up' = TRUE /\ conn' = [c \in DOMAIN conn |-> "maybe"] /\ UNCHANGED <<kvars, pend, sess, cap>>
\* transactions the server holds once it has come to rest
Idle(n) == n = Cardinality({t \in DOMAIN txns : Open(t)}) /\ UNCHANGED rvars
RExpire == /\ Expire
           /\ pend' = [t \in DOMAIN pend |-> [pend[t] EXCEPT !.cands = {[x EXCEPT !.db = Unexpired(@)] : x \in pend[t].cands}]]
           /\ UNCHANGED net
=============================================================================
