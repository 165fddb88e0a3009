------------------------------ MODULE MCHandle ------------------------------
(* The algorithm of schema.Handle and schema.MetaCache, step by step, with    *)
(* several callers sharing its lock, checked against Handle.tla: every answer *)
(* is right for a cache held while the check ran, and nobody ever blocks.     *)
EXTENDS Handle, Json
CONSTANTS Procs, Colls, MaxVer, Window, MaxCalls, Depth
VARIABLES pc, arg, readers, writer, val, caches, calls, hist
\* caches: what was built ([ver, first, diffs]), in the order of hs; val: index of the cache the handle holds
mvars == <<hvars, pc, arg, readers, writer, val, caches, calls, hist>>
Emit == Depth > 0
Some(S) == IF Emit THEN {RandomElement(S)} ELSE S
MInit == HInit /\ pc = [p \in Procs |-> "idle"] /\ arg = [p \in Procs |-> <<>>] /\ readers = 0 /\ writer = FALSE /\ val = 1
         /\ caches = <<[ver |-> -1, first |-> 1, diffs |-> <<>>]>> /\ calls = 0 /\ hist = <<>>
Go(p, s) == pc' = [pc EXCEPT ![p] = s]
Same == UNCHANGED <<hvars, caches, calls, hist>>
\* --- the algorithm's answer
Algo(st, cur, refs) ==
  IF st = cur THEN "ok" ELSE IF caches[st].ver = -1 THEN "conflict"
  ELSE LET a == caches[st]  c == caches[cur]
           Idx(v) == v - c.first
           Vs == (a.ver + 1)..c.ver IN
       IF \E v \in Vs : Idx(v) < 0 THEN "conflict"
       ELSE IF \E v \in Vs : c.diffs[Idx(v) + 1] \cap refs # {} THEN "conflict" ELSE "ok"
StartCheck(p) == /\ pc[p] = "idle" /\ calls < MaxCalls /\ calls' = calls + 1
  /\ \E s \in 1..val, R \in SUBSET Colls : arg' = [arg EXCEPT ![p] = [s |-> s, refs |-> R, lo |-> val, ans |-> "-"]]
  /\ Go(p, "rlock") /\ UNCHANGED <<hvars, readers, writer, val, caches, hist>>
RLock(p) == pc[p] = "rlock" /\ ~writer /\ readers' = readers + 1 /\ Go(p, "compute") /\ Same /\ UNCHANGED <<arg, writer, val>>
Compute(p) == /\ pc[p] = "compute" /\ arg' = [arg EXCEPT ![p].ans = Algo(arg[p].s, val, arg[p].refs)]
              /\ Go(p, "runlock") /\ Same /\ UNCHANGED <<readers, writer, val>>
RUnlock(p) == pc[p] = "runlock" /\ readers' = readers - 1 /\ Go(p, "answered") /\ Same /\ UNCHANGED <<arg, writer, val>>
Answered(p) == pc[p] = "answered" /\ Go(p, "idle") /\ Same /\ UNCHANGED <<arg, readers, writer, val>>
\* one updater at a time builds the next cache from the one held
NoUpdater == \A p \in Procs : pc[p] \notin {"lock", "store", "unlock"}
Cut(d) == IF Len(d) > Window THEN SubSeq(d, Len(d) - Window + 1, Len(d)) ELSE d
StartUpdate(p) == /\ pc[p] = "idle" /\ calls < MaxCalls /\ calls' = calls + 1 /\ NoUpdater
  /\ \/ \E ds \in {<<x>> : x \in SUBSET Colls} \cup {<<{}, x>> : x \in SUBSET Colls} :
          LET c == caches[val]  v0 == IF c.ver = -1 THEN 0 ELSE c.ver  all == c.diffs \o ds  cut == Cut(all) IN
          /\ v0 + Len(ds) <= MaxVer
          /\ caches' = Append(caches, [ver |-> v0 + Len(ds), first |-> c.first + Len(all) - Len(cut), diffs |-> cut])
          /\ chg' = [v \in DOMAIN chg \cup ((v0 + 1)..(v0 + Len(ds))) |-> IF v > v0 THEN ds[v - v0] ELSE chg[v]]
          /\ hs' = Append(hs, [ver |-> v0 + Len(ds), reach |-> IF Last.ver = -1 THEN 0 ELSE Last.reach])
     \/ \E v \in (IF Last.ver = -1 THEN 0 ELSE Last.ver)..MaxVer :
          /\ caches' = Append(caches, [ver |-> v, first |-> v + 1, diffs |-> <<>>]) /\ Load(v)
  /\ Go(p, "lock") /\ UNCHANGED <<arg, readers, writer, val, hist>>
Lock(p) == pc[p] = "lock" /\ ~writer /\ readers = 0 /\ writer' = TRUE /\ Go(p, "store") /\ Same /\ UNCHANGED <<arg, readers, val>>
Store(p) == pc[p] = "store" /\ val' = Len(caches) /\ Go(p, "unlock") /\ Same /\ UNCHANGED <<arg, readers, writer>>
Unlock(p) == pc[p] = "unlock" /\ writer' = FALSE /\ Go(p, "idle") /\ Same /\ UNCHANGED <<arg, readers, val>>
\* generation of sequential programs: k versions at once, or a whole load, or a check
GenStep == LET Ts == RandomElement(1..10) IN
  /\ UNCHANGED <<hvars, pc, arg, readers, writer, val, caches, calls>>
  /\ hist' = Append(hist, CASE Ts <= 4 -> [e |-> "update", full |-> Ts = 1, n |-> IF RandomElement(1..12) = 1 THEN RandomElement(96..104) ELSE RandomElement(1..3), touch |-> RandomElement(SUBSET Colls)]
                            [] OTHER -> [e |-> "check", back |-> RandomElement(0..6), refs |-> RandomElement(SUBSET Colls)])
MNext == IF Emit THEN IF Len(hist) >= Depth THEN PrintT("BEH " \o ToJson(hist)) /\ hist' = <<>> /\ UNCHANGED <<hvars, pc, arg, readers, writer, val, caches, calls>> ELSE GenStep
         ELSE \E p \in Procs : StartCheck(p) \/ RLock(p) \/ Compute(p) \/ RUnlock(p) \/ Answered(p) \/ StartUpdate(p) \/ Lock(p) \/ Store(p) \/ Unlock(p)
MSpec == MInit /\ [][MNext]_mvars
\* ---- every answer is one the specification allows for a cache held meanwhile
Sym == Permutations(Procs)
Right == \A p \in Procs : pc[p] = "answered" => \E i \in arg[p].lo..val : arg[p].ans \in Answers(hs[arg[p].s], hs[i], arg[p].refs)
NeverBlocked == (\E p \in Procs : pc[p] # "idle") => \E p \in Procs : ENABLED (RLock(p) \/ Compute(p) \/ RUnlock(p) \/ Answered(p) \/ Lock(p) \/ Store(p) \/ Unlock(p))
Exclusive == writer => readers = 0
=============================================================================
