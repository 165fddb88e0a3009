--------------------------- MODULE SequenceTrace ---------------------------
EXTENDS Sequence, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES obs, l
Ev == Trace[l]
TInit == l = 1 /\ obs = Obs0
TNext == l <= Len(Trace) /\ l' = l + 1 /\
  CASE Ev.e = "reset" -> obs' = [Obs0 EXCEPT !.strict = Ev.prop = "Q02"]
    [] Ev.e \in {"died", "hung"} -> FALSE
    [] OTHER -> \E o \in Obs(obs, Ev) : obs' = o
TSpec == TInit /\ [][TNext]_<<obs, l>>
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
