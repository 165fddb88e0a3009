---------------------------- MODULE RemoteTrace ----------------------------
(* Validates recorded executions of real clients (the package's own and a   *)
(* raw one) against a real server: one consumed line per step.              *)
EXTENDS Remote, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<rvars, l>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TInit == l = 1 /\ RInit
En(ev) == IF ev.op = "delete" THEN NoEntry ELSE IF ev.op = "set" THEN [v |-> ev.v, tag |-> ev.tag, exp |-> ev.ttl] ELSE NoEntry
TNext ==
  \/ Is("reset")   /\ RReset("remote", Ev.cap)
  \/ Is("connect") /\ Connect(Ev.c, Ev.r)
  \/ Is("sync")    /\ Sync(Ev.c, Ev.r)
  \/ Is("begin")   /\ RBegin(Ev.c, Ev.t, Ev.upd, Ev.r)
  \/ Is("first")   /\ First(Ev.t)
  \/ Is("get")     /\ RGet(Ev.c, Ev.t, Ev.k, Ev.r, Ev.v, Ev.tag, Ev.exp)
  \/ Is("exists")  /\ RExists(Ev.c, Ev.t, Ev.k, Ev.r, Ev.b)
  \/ Is("set")     /\ RSet(Ev.c, Ev.t, Ev.k, Ev.v, Ev.meta, Ev.tag, Ev.ttl, Ev.r)
  \/ Is("delete")  /\ RDelete(Ev.c, Ev.t, Ev.k, Ev.r)
  \/ Is("scan")    /\ RScan(Ev.c, Ev.t, Ev.rev, Ev.prefix, Ev.hasoff, Ev.off, Ev.stop, Ev.r, Ev.es)
  \/ Is("commit")  /\ RCommit(Ev.c, Ev.t, Ev.r)
  \/ Is("discard") /\ RDiscard(Ev.c, Ev.t, Ev.r)
  \/ Is("break")   /\ Break(Ev.c)
  \/ Is("lost")    /\ Lost(Ev.c, Ev.op, Ev.t, IF Ev.op \in {"set", "delete"} THEN Ev.k ELSE <<>>, En(Ev), Ev.mode, Ev.r)
  \/ Is("faulty")  /\ Faulty(Ev.c, Ev.op, Ev.t, Ev.r)
  \/ Is("malformed") /\ Malformed(Ev.c, Ev.t, Ev.lenient)
  \/ Is("stop")    /\ Stop(Ev.r)
  \/ Is("start")   /\ Start(Ev.r)
  \/ Is("idle")    /\ Idle(Ev.n)
  \/ Is("expire")  /\ Ev.r = "ok" /\ RExpire
  \/ Is("liveimage") /\ LiveImage(Ev.r, Ev.got, Ev.acked, Ev.n) /\ UNCHANGED <<pend, net>>
TSpec == TInit /\ [][TNext]_tvars
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
