---------------------------- MODULE SessionTrace ----------------------------
(* Validates what was recorded on the wire of real servers, frame by frame.  *)
EXTENDS Session, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == <<svars, l>>
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
TInit == l = 1 /\ SInit
TNext ==
  \/ Is("reset")  /\ SReset
  \/ Is("ask")    /\ Ask(Ev.c, Ev.s, Ev.op, Ev.end)
  \/ Is("answer") /\ Answer(Ev.c, Ev.s, Ev.a, Ev.end)
  \/ Is("cut")    /\ Cut(Ev.c)
  \/ Is("hangup") /\ Hangup(Ev.c)
  \/ Is("rest")   /\ Rest(Ev.n)
  \/ Is("stopping") /\ Stopping
  \/ Is("stop")   /\ Stop(Ev.r, Ev.n)
  \/ Is("fate")   /\ Fate(Ev.s, Ev.w)
TSpec == TInit /\ [][TNext]_tvars
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
