----------------------------- MODULE IndexTrace -----------------------------
EXTENDS Index, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
TInit == l = 1 /\ IInit
TNext == l <= Len(Trace) /\ l' = l + 1 /\
  CASE Ev.e = "reset" -> IReset
    [] Ev.e = "call" -> Call(Ev)
    [] Ev.e = "commit" -> Commit(Ev.g)
    [] Ev.e = "ret" -> Ret(Ev.g, Ev)
    [] Ev.e \in {"list", "stored"} -> Show(Ev)
    [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_<<ivars, l>>
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
