------------------------------ MODULE KVTrace ------------------------------
(* Validates recorded executions of the providers / the remote client       *)
(* against KV.tla: one consumed line per step.                              *)
EXTENDS KV, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l

tvars == <<kvars, l>>
Ev == Trace[l]
Step(A) == l <= Len(Trace) /\ A /\ l' = l + 1
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1

Damaged(r, A) == IF r = "err" THEN UNCHANGED kvars ELSE A

TInit == l = 1 /\ KVInit("none")
TNext ==
  \/ Is("reset")   /\ KVReset(Ev.prov)
  \/ Is("begin")   /\ Begin(Ev.t, Ev.upd, Ev.r)
  \/ Is("get")     /\ Get(Ev.t, Ev.k, Ev.r, Ev.v, Ev.tag, Ev.exp)
  \/ Is("exists")  /\ Exists(Ev.t, Ev.k, Ev.r, Ev.b)
  \/ Is("set")     /\ Set(Ev.t, Ev.k, Ev.v, Ev.meta, Ev.tag, Ev.ttl, Ev.r)
  \/ Is("delete")  /\ Delete(Ev.t, Ev.k, Ev.r)
  \/ Is("fill")    /\ Ev.n > 0
                   /\ \E en \in {[v |-> Ev.v, tag |-> Ev.tag, exp |-> "none"]} :
                        Fill(Ev.t, Ev.k, IF Ev.del THEN NoEntry ELSE en, Ev.r, Ev.k2, IF Ev.del THEN en ELSE NoEntry, Ev.r2)
  \/ Is("scan")    /\ Scan(Ev.t, Ev.rev, Ev.prefix, Ev.hasoff, Ev.off, Ev.stop, Ev.r, Ev.es)
  \/ Is("commit")  /\ Commit(Ev.t, Ev.r)
  \/ Is("discard") /\ Discard(Ev.t, Ev.r)
  \/ Is("wbnew")   /\ WBNew(Ev.w, Ev.r)
  \/ Is("wbset")   /\ WBWrite(Ev.w, Ev.k, [v |-> Ev.v, tag |-> 0, exp |-> "none"], Ev.r)
  \/ Is("wbdel")   /\ WBWrite(Ev.w, Ev.k, NoEntry, Ev.r)
  \* a batch of very many writes of one key: no limit may be noticed
  \/ Is("wbfill")  /\ WBWrite(Ev.w, Ev.k, IF Ev.del THEN NoEntry ELSE [v |-> Ev.v, tag |-> 0, exp |-> "none"], Ev.r)
  \/ Is("wbcommit") /\ WBCommit(Ev.w, Ev.r)
  \/ Is("wbdiscard") /\ WBDiscard(Ev.w, Ev.r)
  \/ Is("reopen")  /\ Reopen(Ev.r)
  \/ Is("expire")  /\ Ev.r = "ok" /\ Expire
  \* a store with damaged files, or closed: an error or what was there
  \/ Is("damaged") /\ Ev.op = "scan" /\ Damaged(Ev.r, Scan(0, Ev.rev, Ev.prefix, Ev.hasoff, Ev.off, Ev.stop, Ev.r, Ev.es))
  \/ Is("damaged") /\ Ev.op = "get" /\ Damaged(Ev.r, Get(0, Ev.k, Ev.r, Ev.v, Ev.tag, Ev.exp))
  \/ Is("liveimage") /\ LiveImage(Ev.r, Ev.got, Ev.acked, Ev.n)
TSpec == TInit /\ [][TNext]_tvars
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
