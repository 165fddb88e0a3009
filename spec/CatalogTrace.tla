---------------------------- MODULE CatalogTrace ----------------------------
EXTENDS Catalog, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
TInit == l = 1 /\ CInit
TNext == l <= Len(Trace) /\ l' = l + 1 /\
  CASE Ev.e = "reset" -> CReset
    [] Ev.e = "begin" -> Begin(Ev.upd)
    [] Ev.e = "commit" -> Commit(Ev)
    [] Ev.e = "discard" -> Discard
    [] Ev.e = "reopen" -> Reopen(Ev)
    [] Ev.e = "seq" -> DidSeq(Ev)
    [] Ev.e \in Known -> Op(Ev)
    [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_<<cvars, l>>
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
