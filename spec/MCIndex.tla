------------------------------- MODULE MCIndex -------------------------------
(* The algorithm of CreateIndex and DropIndex, step by step: several callers, *)
(* a store with snapshots and conflicts, the cache in memory, failing steps,  *)
(* restarts.  Everything it does must be allowed by Index.tla, and whenever   *)
(* nobody changes anything the cache equals the store.                        *)
EXTENDS Index, Json
CONSTANTS Procs, Names, Fields, MaxCalls, Locked, Depth
VARIABLES mem,    \* the cache
          store,  \* collection -> set of definitions; what the algorithm sees
          ver,    \* number of commits per collection
          pc, arg, lock, calls, good, hist
mvars == <<ivars, mem, store, ver, pc, arg, lock, calls, good, hist>>
Emit == Depth > 0
Some(S) == IF Emit THEN {RandomElement(S)} ELSE S
Colls == {0, 1}
Columns == {<<[n |-> f, d |-> b]>> : f \in Fields, b \in BOOLEAN}
           \cup {<<[n |-> f, d |-> b], [n |-> h, d |-> FALSE]>> : <<f, h>> \in {x \in Fields \X Fields : x[1] # x[2]}, b \in BOOLEAN}
Defs == [name : Names, cols : Columns, uniq : {FALSE}]
MInit == IInit /\ mem = [c \in Colls |-> {}] /\ store = [c \in Colls |-> {}] /\ ver = [c \in Colls |-> 0]
         /\ pc = [p \in Procs |-> "idle"] /\ arg = [p \in Procs |-> None] /\ lock = [c \in Colls |-> FALSE] /\ calls = 0 /\ good = TRUE /\ hist = <<>>
Go(p, s) == pc' = [pc EXCEPT ![p] = s]
MC == {0}   \* one collection is enough for the steps; the generator uses both

Start(p) ==
  /\ pc[p] = "idle" /\ calls < MaxCalls /\ calls' = calls + 1
  /\ \E c \in MC : \/ \E d \in Defs : LET e == [g |-> p, op |-> "create", c |-> c, def |-> d, badname |-> FALSE, long |-> FALSE] IN
                          Call(e) /\ arg' = [arg EXCEPT ![p] = [c |-> c, op |-> "create", def |-> d, snap |-> {}, at |-> 0, r |-> ""]]
                   \/ \E nm \in Names : LET e == [g |-> p, op |-> "drop", c |-> c, name |-> nm, badname |-> FALSE, long |-> FALSE] IN
                          Call(e) /\ arg' = [arg EXCEPT ![p] = [c |-> c, op |-> "drop", def |-> [name |-> nm, cols |-> <<>>, uniq |-> FALSE], snap |-> {}, at |-> 0, r |-> ""]]
  /\ Go(p, "lock") /\ UNCHANGED <<mem, store, ver, lock, good, hist>>
A(p) == arg[p]
Acquire(p) == /\ pc[p] = "lock" /\ Go(p, "begin")
              /\ IF Locked THEN ~lock[A(p).c] /\ lock' = [lock EXCEPT ![A(p).c] = TRUE] ELSE UNCHANGED lock
              /\ UNCHANGED <<ivars, mem, store, ver, arg, calls, good, hist>>
Begin(p) == /\ pc[p] = "begin" /\ arg' = [arg EXCEPT ![p].snap = store[A(p).c], ![p].at = ver[A(p).c]] /\ Go(p, "check")
            /\ UNCHANGED <<ivars, mem, store, ver, lock, calls, good, hist>>
End(p, r) == arg' = [arg EXCEPT ![p].r = r] /\ Go(p, "unlock")
Check(p) == /\ pc[p] = "check"
            /\ IF A(p).op = "create"
               THEN IF Clash(A(p).def, A(p).snap) THEN End(p, "dup") ELSE Go(p, "commit") /\ UNCHANGED arg
               ELSE IF Named(A(p).def.name, A(p).snap) = {} THEN End(p, "absent") ELSE Go(p, "commit") /\ UNCHANGED arg
            /\ UNCHANGED <<ivars, mem, store, ver, lock, calls, good, hist>>
\* anything may fail up to the commit
Fault(p) == /\ pc[p] \in {"check", "commit"} /\ End(p, "fault")
            /\ UNCHANGED <<ivars, mem, store, ver, lock, calls, good, hist>>
DoCommit(p) ==
  /\ pc[p] = "commit"
  /\ LET c == A(p).c  S == IF A(p).op = "create" THEN A(p).snap \cup {A(p).def} ELSE A(p).snap \ Named(A(p).def.name, A(p).snap) IN
     IF ver[c] # A(p).at   \* the keys of one another's names and columns were read
     THEN End(p, "err") /\ UNCHANGED <<ivars, store, ver, good>>
     ELSE /\ store' = [store EXCEPT ![c] = S] /\ ver' = [ver EXCEPT ![c] = @ + 1] /\ Go(p, "update") /\ UNCHANGED arg
          /\ IF CommitOk(p) THEN Commit(p) /\ UNCHANGED good ELSE good' = FALSE /\ UNCHANGED ivars
  /\ UNCHANGED <<mem, lock, calls, hist>>
Update(p) ==
  /\ pc[p] = "update" /\ End(p, "ok")
  /\ mem' = [mem EXCEPT ![A(p).c] = (@ \ Named(A(p).def.name, @)) \cup IF A(p).op = "create" THEN {A(p).def} ELSE {}]
  /\ UNCHANGED <<ivars, store, ver, lock, calls, good, hist>>
Release(p) == /\ pc[p] = "unlock" /\ Go(p, "ret") /\ lock' = [lock EXCEPT ![A(p).c] = FALSE]
              /\ UNCHANGED <<ivars, mem, store, ver, arg, calls, good, hist>>
Return(p) ==
  /\ pc[p] = "ret" /\ Go(p, "idle")
  /\ LET a == A(p)
         ev == [g |-> p, r |-> CASE a.r = "fault" -> "err" [] a.r = "absent" -> "ok" [] OTHER -> a.r, fault |-> a.r = "fault",
                kept |-> TRUE, iid |-> calls * 10 + Cardinality(ids), exists |-> a.r = "ok"] IN
     IF RetOk(p, ev) THEN Ret(p, ev) /\ UNCHANGED good ELSE good' = FALSE /\ UNCHANGED ivars
  /\ UNCHANGED <<mem, store, ver, arg, lock, calls, hist>>
\* the process ends and another one starts: unanswered calls are never answered
Crash == /\ \E p \in Procs : pc[p] # "idle"
         /\ calls < MaxCalls
         /\ pend' = <<>> /\ pc' = [p \in Procs |-> "idle"] /\ lock' = [c \in Colls |-> FALSE]
         /\ mem' = store /\ UNCHANGED <<cat, ids, store, ver, arg, calls, good, hist>>

\* ---- generated programs
GenStep == \E k \in Some(1..12), c \in Some(Colls), d \in Some(Defs), u \in Some(BOOLEAN), f \in Some(1..60) :
  LET fail == IF f <= 10 THEN f ELSE 0
      base == [c |-> c, name |-> d.name, cols |-> <<>>, uniq |-> u, fail |-> fail] IN
  /\ hist' = Append(hist, CASE k = 1 -> [base EXCEPT !.fail = 0] @@ [e |-> IF u THEN "reopen" ELSE "crash"]
                            [] k <= 5 -> base @@ [e |-> "drop"]
                            [] OTHER -> [base EXCEPT !.cols = [i \in 1..Len(d.cols) |-> (IF d.cols[i].d THEN "-" ELSE "") \o d.cols[i].n]] @@ [e |-> "create"])
  /\ UNCHANGED <<ivars, mem, store, ver, pc, arg, lock, calls, good>>
Flush == PrintT("BEH " \o ToJson(hist)) /\ hist' = <<>> /\ UNCHANGED <<ivars, mem, store, ver, pc, arg, lock, calls, good>>
Step == \/ \E p \in Procs : Start(p) \/ Acquire(p) \/ Begin(p) \/ Check(p) \/ Fault(p) \/ DoCommit(p) \/ Update(p) \/ Release(p) \/ Return(p)
        \/ Crash
MNext == IF Emit THEN IF Len(hist) >= Depth THEN Flush ELSE GenStep ELSE Step
MSpec == MInit /\ [][MNext]_mvars
Sym == Permutations(Procs)
Allowed == good
Same == (\A p \in Procs : pc[p] = "idle") => mem = store /\ \A c \in Colls : At(c) = store[c]
Unique == \A c \in Colls : \A x, y \in store[c] : x # y => x.name # y.name /\ Key(x.cols) # Key(y.cols)
=============================================================================
