---------------------------- MODULE HelpersTrace ----------------------------
EXTENDS Helpers, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
TInit == l = 1 /\ HInit
TNext == l <= Len(Trace) /\ l' = l + 1 /\
  CASE Ev.e = "reset" -> HReset
    [] Ev.e = "start" -> Start([Ev EXCEPT !.cbs = {@[k] : k \in 1..Len(@)}])
    [] Ev.e = "begin" -> Begin(Ev)
    [] Ev.e = "f" -> F(Ev)
    [] Ev.e = "commit" -> Commit(Ev)
    [] Ev.e = "discard" -> Discard(Ev)
    [] Ev.e = "called" -> Called(Ev)
    [] Ev.e = "done" -> Done(Ev)
    [] Ev.e = "hold" -> Hold(Ev)
    [] Ev.e = "release" -> Release(Ev)
    [] Ev.e = "content" -> Content(Ev)
    [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_<<hvars, l>>
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
