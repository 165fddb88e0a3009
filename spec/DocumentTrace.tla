--------------------------- MODULE DocumentTrace ---------------------------
EXTENDS Document, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
TInit == l = 1 /\ DInit0
TNext == l <= Len(Trace) /\ l' = l + 1 /\
  CASE Ev.e = "reset" -> DReset(Set(Ev.colls))
    [] Ev.e = "begin" -> Begin(Ev.t, Ev.upd)
    [] Ev.e = "commit" -> Commit(Ev.t, Ev)
    [] Ev.e = "recommit" -> Recommit(Ev.t, Ev)
    [] Ev.e = "discard" -> Discard(Ev.t, Ev)
    [] Ev.e = "schema" -> Schema(Ev)
    [] Ev.e = "open" -> OpenColl(Ev)
    [] Ev.e = "restart" -> Restart
    [] Ev.e \in Known -> DOp(Ev)
    [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_<<dvars, l>>
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
