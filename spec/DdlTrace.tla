------------------------------ MODULE DdlTrace ------------------------------
EXTENDS Ddl, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
\* ev.gid0: the store is not new, its largest id is given
Reset(ev) == /\ ver' = 0 /\ gid' = ev.gid /\ dbs' = {} /\ queue' = <<>> /\ hist' = <<>> /\ done' = FALSE /\ used' = {} /\ calls' = <<>>
             /\ faults' = 0 /\ ncommit' = 0 /\ recs' = <<>>
TInit == l = 1 /\ DInit
TNext == l <= Len(Trace) /\ l' = l + 1 /\
  CASE Ev.e = "reset" -> Reset(Ev)
    [] Ev.e = "call" -> Call(Ev)
    [] Ev.e = "ret" -> RetOK(Ev) /\ Ret(Ev)
    [] Ev.e = "commit" -> CommitOK(Ev) /\ Commit(Ev)
    [] Ev.e = "fault" -> Fault
    [] Ev.e = "crash" -> Crash
    [] Ev.e = "init" -> Ev.r = "ok" /\ UNCHANGED dvars
    [] Ev.e = "use" -> Ev.r = "ok" /\ UNCHANGED dvars
    [] Ev.e = "view" -> Ev.r = "ok" /\ ViewOK(Ev) /\ UNCHANGED dvars
    [] Ev.e = "quiet" -> QuietOK(Ev) /\ UNCHANGED dvars
    [] OTHER -> FALSE
TSpec == TInit /\ [][TNext]_<<dvars, l>>
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
