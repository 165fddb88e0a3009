-------------------------------- MODULE MCKV --------------------------------
(* Bounded instance of KV.tla: exhaustive checking of the transactional       *)
(* guarantees, and generation of behaviours that are replayed into the code.  *)
EXTENDS KV, Json
CONSTANTS Prov, Keys, Vals, Tags, Txns, MaxClock, Depth, Ops
VARIABLE hist
mvars == <<kvars, hist>>

K2Keys == {<<1>>, <<1, 255>>}
K4Keys == {<<1>>, <<1, 255>>, <<255>>, <<>>}
Look(m, k) == IF k \in DOMAIN m THEN m[k] ELSE NoEntry
H(o) == hist' = Append(hist, o)
Ids == {0} \cup (DOMAIN txns)
Rs == {"ok", "err", "notfound", "conflict"}
EnOf(t, k) == IF Usable(t) THEN Look(View(t), k) ELSE NoEntry

MInit == KVInit(Prov) /\ hist = <<>>
Step ==
  \/ \E t \in Txns, u \in BOOLEAN : (\A s \in Txns : s < t => s \in DOMAIN txns) /\ Begin(t, u, "ok") /\ H([e |-> "begin", t |-> t, upd |-> u])
  \/ \E t \in Ids, k \in Keys, r \in Rs : LET en == EnOf(t, k) IN
       Get(t, k, r, en.v, en.tag, en.exp) /\ H([e |-> "get", t |-> t, k |-> k])
  \/ \E t \in Ids, k \in Keys, r \in Rs, b \in BOOLEAN : r # "err" /\ Exists(t, k, r, b) /\ H([e |-> "exists", t |-> t, k |-> k])
  \/ \E t \in Ids, k \in Keys, v \in Vals, g \in Tags, r \in Rs :
       /\ Set(t, k, v, g # 0, g, "none", r)
       /\ H([e |-> "set", t |-> t, k |-> k, v |-> v, meta |-> (g # 0), tag |-> g, ttl |-> "none"])
  \/ \E t \in Ids, k \in Keys, r \in Rs : Delete(t, k, r) /\ H([e |-> "delete", t |-> t, k |-> k])
  \/ "scan" \in Ops /\ \E t \in {x \in Ids : Usable(x)}, rev \in BOOLEAN, stop \in {0, 1} :
       LET view == View(t)
           ks == ScanKeys(view, rev, <<>>, FALSE, <<>>, stop) IN
       /\ Scan(t, rev, <<>>, FALSE, <<>>, stop, IF rev /\ prov = "leveldb" THEN "err" ELSE "ok",
               IF rev /\ prov = "leveldb" THEN <<>> ELSE
               [i \in 1..Len(ks) |-> [k |-> ks[i], v |-> view[ks[i]].v, tag |-> view[ks[i]].tag, exp |-> view[ks[i]].exp]])
       /\ H([e |-> "scan", t |-> t, rev |-> rev, stop |-> stop])
  \/ \E t \in DOMAIN txns, r \in {"ok", "conflict"} : Commit(t, r) /\ H([e |-> "commit", t |-> t])
  \/ \E t \in DOMAIN txns : Discard(t, "ok") /\ H([e |-> "discard", t |-> t])
  \/ "wb" \in Ops /\ wbs = Empty /\ WBNew(1, "ok") /\ H([e |-> "wbnew", w |-> 1])
  \/ \E w \in DOMAIN wbs : \/ \E k \in Keys, v \in Vals : WBWrite(w, k, [v |-> v, tag |-> 0, exp |-> "none"], "ok") /\ H([e |-> "wbset", w |-> w, k |-> k, v |-> v])
                           \/ \E k \in Keys : WBWrite(w, k, NoEntry, "ok") /\ H([e |-> "wbdel", w |-> w, k |-> k])
                           \/ WBCommit(w, "ok") /\ H([e |-> "wbcommit", w |-> w])
                           \/ WBDiscard(w, "ok") /\ H([e |-> "wbdiscard", w |-> w])
  \/ \E m \in {"clean", "crash"} : "reopen" \in Ops /\ (txns # Empty \/ wbs # Empty) /\ Reopen("ok") /\ H([e |-> "reopen", mode |-> m])
MNext == IF Depth > 0 /\ Len(hist) >= Depth THEN PrintT("BEH " \o ToJson(hist)) /\ UNCHANGED mvars ELSE Step
MSpec == MInit /\ [][MNext]_mvars

\* ---- bounds
Bound == clock <= MaxClock
NoHist == kvars

\* ---- properties
TypeOK == /\ \A k \in DOMAIN db : db[k] # NoEntry
          /\ \A t \in DOMAIN txns : txns[t].rd \subseteq txns[t].may
ReadOnlyNeverWrites == \A t \in DOMAIN txns : ~txns[t].upd => txns[t].w = Empty
\* a transaction that commits writes saw, for every key it read, the value the key has at commit
Commits(t) == t \in DOMAIN txns /\ txns[t].st = "open" /\ t \in DOMAIN txns' /\ txns'[t].st = "committed"
Aborts(t) == t \in DOMAIN txns /\ txns[t].st = "open" /\ (t \notin DOMAIN txns' \/ txns'[t].st = "aborted")
CommitSerial == [][\A t \in DOMAIN txns : Commits(t) /\ txns[t].w # Empty =>
                     \A k \in txns[t].rd : Look(txns[t].snap, k) = Look(db, k)]_kvars
AbortNoEffect == [][\A t \in DOMAIN txns : Aborts(t) => db' = db]_kvars
CommitAllOrNothing == [][\A t \in DOMAIN txns : Commits(t) =>
                     \A k \in DOMAIN txns[t].w : Look(db', k) = txns[t].w[k]]_kvars
Snapshot == [][\A t \in DOMAIN txns : t \in DOMAIN txns' /\ txns'[t].st = "open" => txns'[t].snap = txns[t].snap]_kvars
DurableReopen == [][txns' = Empty /\ txns # Empty => db' = db]_kvars

=============================================================================
