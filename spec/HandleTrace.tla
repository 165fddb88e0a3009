---------------------------- MODULE HandleTrace ----------------------------
EXTENDS Handle, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
TInit == l = 1 /\ HInit
TNext == l <= Len(Trace) /\ l' = l + 1 /\
  CASE Ev.e = "reset" -> HReset
    [] Ev.e = "update" -> Update(Ev)
    [] Ev.e = "check" -> Check(Ev)
    [] Ev.e = "gap" -> Ev.r = "err" /\ UNCHANGED hvars   \* changes that do not follow on are refused
    [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_<<hvars, l>>
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
