--------------------------- MODULE StructureTrace ---------------------------
EXTENDS Structure, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<svars, l>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TInit == l = 1 /\ SInit0
TNext ==
  \/ Is("reset") /\ SReset
  \/ Is("begin") /\ Ev.r = "ok" /\ SBegin(Ev.t)
  \/ Is("commit") /\ SCommit(Ev.t, Ev.r)
  \/ Is("discard") /\ Ev.r = "ok" /\ SDiscard(Ev.t)
  \* the store failed it and that is reported (the transaction is then given up); an operation that
  \* succeeds although an access of it failed is judged like any other
  \/ Is("faulty") /\ Ev.r = "err" /\ UNCHANGED svars
  \/ l <= Len(Trace) /\ Ev.e \notin {"reset", "begin", "commit", "discard", "died", "hung", "faulty"} /\ l' = l + 1 /\ SOp(Ev.t, Ev)
TSpec == TInit /\ [][TNext]_tvars
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
