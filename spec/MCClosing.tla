------------------------------ MODULE MCClosing ------------------------------
(* The algorithm of the end, step by step: operations check the state, enter  *)
(* the closer, work, leave; first uses of names hold the lock of the names;    *)
(* the first Close marks the state, shuts the closer and waits, and the other  *)
(* ones wait for it.  Everything it does must be allowed by Closing.tla, and   *)
(* every call ends.                                                           *)
EXTENDS Closing
CONSTANTS Procs, Closers, Names, MaxCalls, Steps,
          Checked   \* TRUE: the closer is entered; FALSE: only the state is looked at
VARIABLES state, shut, counter, once, lock, map, pc, arg, kpc, calls, good, nobj
mvars == <<cvars, state, shut, counter, once, lock, map, pc, arg, kpc, calls, good, nobj>>
MInit == CInit /\ state = "open" /\ shut = FALSE /\ counter = 0 /\ once = "-" /\ lock = FALSE /\ map = <<>>
         /\ pc = [p \in Procs |-> "idle"] /\ arg = [p \in Procs |-> [name |-> "", r |-> "", obj |-> 0, left |-> 0]]
         /\ kpc = [k \in Closers |-> "idle"] /\ calls = 0 /\ good = TRUE /\ nobj = 0
Go(p, s) == pc' = [pc EXCEPT ![p] = s]
KGo(k, s) == kpc' = [kpc EXCEPT ![k] = s]
All == <<cvars, state, shut, counter, once, lock, map, pc, arg, kpc, calls, good, nobj>>
IsColl(p) == arg[p].name # ""

Start(p) ==
  /\ pc[p] = "idle" /\ calls < MaxCalls /\ calls' = calls + 1 /\ Go(p, "check")
  /\ \E n \in Names \cup {""} :
     /\ arg' = [arg EXCEPT ![p] = [name |-> n, r |-> "", obj |-> 0, left |-> Steps]]
     /\ Call([g |-> p, op |-> IF n = "" THEN "write" ELSE "coll", name |-> n, bad |-> FALSE, long |-> FALSE])
  /\ UNCHANGED <<state, shut, counter, once, lock, map, kpc, good, nobj>>
End(p, r) == Go(p, "ret") /\ arg' = [arg EXCEPT ![p].r = r]
CheckState(p) ==
  /\ pc[p] = "check"
  /\ IF state # "open" THEN End(p, "closed") ELSE Go(p, IF IsColl(p) THEN "look" ELSE "enter") /\ UNCHANGED arg
  /\ UNCHANGED <<cvars, state, shut, counter, once, lock, map, kpc, calls, good, nobj>>
\* known names are found without entering
Look(p) ==
  /\ pc[p] = "look" /\ ~lock
  /\ IF arg[p].name \in DOMAIN map THEN Go(p, "ret") /\ arg' = [arg EXCEPT ![p].r = "ok", ![p].obj = map[arg[p].name]]
     ELSE Go(p, "enter") /\ UNCHANGED arg
  /\ UNCHANGED <<cvars, state, shut, counter, once, lock, map, kpc, calls, good, nobj>>
Enter(p) ==
  /\ pc[p] = "enter"
  /\ IF ~Checked THEN Go(p, IF IsColl(p) THEN "lock" ELSE "work") /\ UNCHANGED <<arg, counter>>
     ELSE IF shut THEN End(p, "closed") /\ UNCHANGED counter
     ELSE counter' = counter + 1 /\ Go(p, IF IsColl(p) THEN "lock" ELSE "work") /\ UNCHANGED arg
  /\ UNCHANGED <<cvars, state, shut, once, lock, map, kpc, calls, good, nobj>>
Lock(p) ==
  /\ pc[p] = "lock" /\ ~lock
  /\ IF arg[p].name \in DOMAIN map THEN Go(p, "leave") /\ arg' = [arg EXCEPT ![p].r = "ok", ![p].obj = map[arg[p].name]] /\ UNCHANGED lock
     ELSE lock' = TRUE /\ Go(p, "work") /\ UNCHANGED arg
  /\ UNCHANGED <<cvars, state, shut, counter, once, map, kpc, calls, good, nobj>>
Try(ok, act) == IF ok THEN act /\ UNCHANGED good ELSE good' = FALSE /\ UNCHANGED cvars
Work(p) ==
  /\ pc[p] = "work" /\ arg[p].left > 0 /\ Go(p, "access")
  /\ Try(~done, Access(p, 1))
  /\ UNCHANGED <<state, shut, counter, once, lock, map, arg, kpc, calls, nobj>>
Accessed(p) ==
  /\ pc[p] = "access" /\ arg' = [arg EXCEPT ![p].left = @ - 1] /\ Go(p, IF arg[p].left = 1 THEN "commit" ELSE "work")
  /\ Try(~done, Access(p, -1))
  /\ UNCHANGED <<state, shut, counter, once, lock, map, kpc, calls, nobj>>
DoCommit(p) ==
  /\ pc[p] = "commit"
  /\ \/ /\ Try(~done, Commit(p, <<<<"k", "v">>>>)) /\ arg' = [arg EXCEPT ![p].r = "ok", ![p].obj = IF IsColl(p) THEN nobj + 1 ELSE 0]
        /\ nobj' = IF IsColl(p) THEN nobj + 1 ELSE nobj
     \/ arg' = [arg EXCEPT ![p].r = "fault"] /\ UNCHANGED <<cvars, good, nobj>>
  /\ Go(p, IF IsColl(p) THEN "unlock" ELSE "leave")
  /\ UNCHANGED <<state, shut, counter, once, lock, map, kpc, calls>>
Unlock(p) ==
  /\ pc[p] = "unlock" /\ lock' = FALSE /\ Go(p, "leave")
  /\ map' = IF arg[p].r = "ok" THEN (arg[p].name :> arg[p].obj) @@ map ELSE map
  /\ UNCHANGED <<cvars, state, shut, counter, once, arg, kpc, calls, good, nobj>>
Leave(p) ==
  /\ pc[p] = "leave" /\ Go(p, "ret") /\ counter' = IF Checked THEN counter - 1 ELSE counter
  /\ UNCHANGED <<cvars, state, shut, once, lock, map, arg, kpc, calls, good, nobj>>
Return(p) ==
  /\ pc[p] = "ret" /\ Go(p, "idle")
  /\ LET a == arg[p]  ev == [r |-> IF a.r = "fault" THEN "err" ELSE a.r, fault |-> a.r = "fault", wrote |-> a.r = "ok" /\ ~IsColl(p), obj |-> a.obj] IN
     Try(/\ AnswerOk(pend[p], ev)
         /\ (ev.r = "ok" /\ IsColl(p)) => IF a.name \in DOMAIN objs THEN objs[a.name] = a.obj ELSE a.obj \notin Range(objs), Ret(p, ev))
  /\ UNCHANGED <<state, shut, counter, once, lock, map, arg, kpc, calls, nobj>>
\* Close
KStart(k) ==
  /\ kpc[k] = "idle" /\ calls < MaxCalls /\ calls' = calls + 1 /\ CloseCall(k)
  /\ KGo(k, "once") /\ UNCHANGED <<state, shut, counter, once, lock, map, pc, arg, good, nobj>>
KOnce(k) ==
  /\ kpc[k] = "once"
  /\ IF once = "-" THEN once' = "busy" /\ KGo(k, "mark") ELSE once = "over" /\ KGo(k, "ret") /\ UNCHANGED once
  /\ UNCHANGED <<cvars, state, shut, counter, lock, map, pc, arg, calls, good, nobj>>
KMark(k) == kpc[k] = "mark" /\ state' = "closing" /\ KGo(k, "shut") /\ UNCHANGED <<cvars, shut, counter, once, lock, map, pc, arg, calls, good, nobj>>
KShut(k) == kpc[k] = "shut" /\ shut' = TRUE /\ KGo(k, "wait") /\ UNCHANGED <<cvars, state, counter, once, lock, map, pc, arg, calls, good, nobj>>
KWait(k) == kpc[k] = "wait" /\ counter = 0 /\ KGo(k, "over") /\ UNCHANGED <<cvars, state, shut, counter, once, lock, map, pc, arg, calls, good, nobj>>
KOver(k) == kpc[k] = "over" /\ state' = "closed" /\ once' = "over" /\ KGo(k, "ret") /\ UNCHANGED <<cvars, shut, counter, lock, map, pc, arg, calls, good, nobj>>
KRet(k) == /\ kpc[k] = "ret" /\ KGo(k, "idle") /\ Try(CloseRetOk(k), CloseRet(k))
           /\ UNCHANGED <<state, shut, counter, once, lock, map, pc, arg, calls, nobj>>
PStep(p) == CheckState(p) \/ Look(p) \/ Enter(p) \/ Lock(p) \/ Work(p) \/ Accessed(p) \/ DoCommit(p) \/ Unlock(p) \/ Leave(p) \/ Return(p)
KStep(k) == KOnce(k) \/ KMark(k) \/ KShut(k) \/ KWait(k) \/ KOver(k) \/ KRet(k)
MNext == (\E p \in Procs : Start(p) \/ PStep(p)) \/ \E k \in Closers : KStart(k) \/ KStep(k)
Fair == (\A p \in Procs : WF_mvars(PStep(p))) /\ \A k \in Closers : WF_mvars(KStep(k))
MSpec == MInit /\ [][MNext]_mvars
MFair == MSpec /\ Fair
Sym == Permutations(Procs) \cup Permutations(Closers)
Allowed == good
Ends == (\A p \in Procs : pc[p] # "idle" ~> pc[p] = "idle") /\ \A k \in Closers : kpc[k] # "idle" ~> kpc[k] = "idle"
\* somebody can always go on
Live == (\E p \in Procs : pc[p] # "idle") \/ (\E k \in Closers : kpc[k] # "idle")
        => (\E p \in Procs : ENABLED PStep(p)) \/ \E k \in Closers : ENABLED KStep(k)
=============================================================================
