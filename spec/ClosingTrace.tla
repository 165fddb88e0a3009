---------------------------- MODULE ClosingTrace ----------------------------
EXTENDS Closing, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
TInit == l = 1 /\ CInit
TNext == l <= Len(Trace) /\ l' = l + 1 /\
  CASE Ev.e = "reset" -> CReset
    [] Ev.e = "boot" -> Boot
    [] Ev.e = "call" -> Call(Ev)
    [] Ev.e = "acc" -> Access(Ev.g, Ev.d)
    [] Ev.e = "commit" -> Commit(Ev.g, Ev.w)
    [] Ev.e = "ret" -> Ret(Ev.g, Ev)
    [] Ev.e = "closecall" -> CloseCall(Ev.g)
    [] Ev.e = "closeret" -> CloseRet(Ev.g)
    [] Ev.e = "image" -> Image(Ev.w)
    [] Ev.e = "see" -> See(Ev)
    [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_<<cvars, l>>
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
