-------------------------------- MODULE MCDdl --------------------------------
(* The algorithm: callers and one worker, transactions split into begin (a    *)
(* snapshot) and commit (fails when something read has changed), operations   *)
(* and commits that fail, crashes at any point; checked against Ddl.tla.      *)
EXTENDS Ddl, Json
CONSTANTS Callers, NameSet, MaxCalls, MaxFaults, MaxCrashes, MaxErr, Depth
VARIABLES pc, snap, wpc, wsnap, errs, ncalls, ncrash, bad, vers, hist_, res
\* vers: version counters of what transactions read and write: q (queue), d (databases), g (ids), v (schema version)
mvars == <<dvars, pc, snap, wpc, wsnap, errs, ncalls, ncrash, bad, vers, hist_, res>>
Emit == Depth > 0
Some(S) == IF Emit /\ S # {} THEN {RandomElement(S)} ELSE S
Log(x) == hist_' = IF Emit THEN Append(hist_, x) ELSE hist_
NoLog == UNCHANGED hist_
Obs == UNCHANGED dvars
MInit == /\ DInit /\ pc = [c \in Callers |-> "idle"] /\ snap = [c \in Callers |-> <<>>] /\ wpc = "idle" /\ wsnap = <<>> /\ errs = 0
         /\ ncalls = 0 /\ ncrash = 0 /\ bad = FALSE /\ vers = [q |-> 0, d |-> 0, g |-> 0, v |-> 0] /\ hist_ = <<>> /\ res = <<>>
Bump(w) == vers' = [x \in DOMAIN vers |-> IF x \in w THEN vers[x] + 1 ELSE vers[x]]
Fresh(s, r) == \A x \in r : s.vers[x] = vers[x]
Base == [ver |-> ver, gid |-> gid, q |-> QIds(queue), newq |-> <<>>, add |-> <<>>, chg |-> <<>>, hist |-> <<>>, diff |-> <<>>]
Do(ev) == bad' = (bad \/ ~CommitOK(ev)) /\ IF CommitOK(ev) THEN Commit(ev) ELSE UNCHANGED dvars
Cid(c) == c

\* ------------------------------------------------ callers
Start(c) == /\ pc[c] = "idle" /\ ncalls < MaxCalls /\ ncalls' = ncalls + 1
            /\ \E n \in Some(NameSet), s \in Some({1}) :
                 /\ Call([c |-> Cid(c), name |-> n, sig |-> c, typ |-> "schema", valid |-> TRUE, may |-> FALSE])
                 /\ snap' = [snap EXCEPT ![c] = [name |-> n, vers |-> vers, len |-> Len(queue), ex |-> n \in Names, gid |-> gid, id |-> 0]]
                 /\ pc' = [pc EXCEPT ![c] = IF Len(queue) >= MaxQueue THEN "full" ELSE IF n \in Names THEN "exists" ELSE "commit"]
                 /\ Log([a |-> "call", n |-> n, s |-> IF Emit THEN RandomElement(0..7) ELSE 0, d |-> ""])
            /\ UNCHANGED <<wpc, wsnap, errs, ncrash, bad, vers, res>>
CallerCommit(c) ==
  /\ pc[c] = "commit"
  /\ LET s == snap[c] IN
     IF ~Fresh(s, {"q", "d", "g"}) THEN pc' = [pc EXCEPT ![c] = "conflict"] /\ Obs /\ UNCHANGED <<snap, vers, bad>>
     ELSE /\ Do([Base EXCEPT !.gid = gid + 3, !.q = Append(@, gid + 3),
                  !.newq = <<[id |-> gid + 3, name |-> s.name, sig |-> c, ids |-> <<gid + 1, gid + 2>>, cids |-> <<gid + 2>>, typ |-> "schema"]>>])
          /\ Bump({"q", "g"}) /\ pc' = [pc EXCEPT ![c] = "wait"] /\ snap' = [snap EXCEPT ![c].id = gid + 3]
  /\ Log([a |-> "caller", n |-> 0, s |-> 0, d |-> "ok"]) /\ UNCHANGED <<wpc, wsnap, errs, ncalls, ncrash, res>>
CallerFail(c) == /\ pc[c] = "commit" /\ faults < MaxFaults /\ Fault /\ pc' = [pc EXCEPT ![c] = "err"]
                 /\ Log([a |-> "caller", n |-> 0, s |-> 0, d |-> "fail"]) /\ UNCHANGED <<snap, wpc, wsnap, errs, ncalls, ncrash, bad, vers, res>>
Return(c, r, det) ==
  LET ev == [c |-> Cid(c), r |-> r, id |-> snap[c].id, detail |-> det] IN
  /\ bad' = (bad \/ ~RetOK(ev)) /\ Ret(ev) /\ pc' = [pc EXCEPT ![c] = "idle"] /\ snap' = [snap EXCEPT ![c] = <<>>]
  /\ res' = IF snap[c].id # 0 THEN res ELSE res
  /\ NoLog /\ UNCHANGED <<wpc, wsnap, errs, ncalls, ncrash, vers>>
CallerReturn(c) == \/ pc[c] \in {"full", "exists", "conflict", "err"} /\ Return(c, pc[c], "")
                   \/ pc[c] = "wait" /\ snap[c].id \in DOMAIN hist /\ Return(c, IF hist[snap[c].id].ok THEN "ok" ELSE "err", hist[snap[c].id].err)

\* ------------------------------------------------ the worker; errs: how often the head has failed
WBegin == /\ wpc = "idle" /\ queue # <<>>
          /\ wsnap' = [vers |-> vers, job |-> Head(queue), ex |-> Head(queue).name \in Names, done |-> done]
          /\ wpc' = IF done THEN "finish" ELSE IF Head(queue).name \in Names THEN "failexists" ELSE "run"
          /\ Obs /\ Log([a |-> "begin", n |-> 0, s |-> 0, d |-> ""]) /\ UNCHANGED <<pc, snap, errs, ncalls, ncrash, bad, vers, res>>
WConflict(r) == /\ ~Fresh(wsnap, r) /\ wpc' = "idle" /\ Obs /\ UNCHANGED <<errs, bad, vers>>
WRun == /\ wpc = "run"
        /\ \/ WConflict({"q", "d", "v"})
           \/ /\ Fresh(wsnap, {"q", "d", "v"}) /\ wpc' = "idle" /\ UNCHANGED errs
              /\ LET j == wsnap.job IN
                 Do([Base EXCEPT !.ver = ver + 1, !.add = <<[name |-> j.name, sig |-> j.sig, csig |-> j.sig, ids |-> j.ids]>>,
                       !.diff = <<[v |-> ver + 1, typ |-> j.typ, name |-> j.name, sig |-> j.sig, ids |-> j.ids, cids |-> j.cids]>>])
              /\ Bump({"q", "d", "v"})
WFinish == /\ wpc \in {"finish", "failexists", "giveup"}
           /\ \/ WConflict(IF wpc = "failexists" THEN {"q", "d"} ELSE {"q"})
              \/ /\ Fresh(wsnap, IF wpc = "failexists" THEN {"q", "d"} ELSE {"q"}) /\ wpc' = "idle" /\ errs' = 0
                 /\ Do([Base EXCEPT !.q = QIds(Tail(queue)), !.hist = <<[id |-> wsnap.job.id, ok |-> wpc = "finish", err |-> IF wpc = "finish" THEN "" ELSE wpc]>>])
                 /\ Bump({"q"})
\* an operation of the run fails: nothing of it stays, the failure is counted in a transaction of its own
WOpFail == wpc = "run" /\ faults < MaxFaults /\ Fault /\ wpc' = "count" /\ UNCHANGED <<errs, bad, vers, wsnap>>
WCount == /\ wpc = "count" /\ errs' = errs + 1 /\ wsnap' = [wsnap EXCEPT !.vers = vers]
          /\ IF errs + 1 >= MaxErr THEN wpc' = "giveup" /\ Obs /\ UNCHANGED <<bad, vers>>
             ELSE wpc' = "idle" /\ Do(Base) /\ Bump({"q"})
\* the commit fails without effect
WCommitFail == wpc \in {"run", "finish", "failexists", "giveup", "count"} /\ faults < MaxFaults /\ Fault /\ wpc' = "idle" /\ UNCHANGED <<errs, bad, vers>>
Worker(k) == /\ UNCHANGED <<pc, snap, ncalls, ncrash, res>>
             /\ \/ k = "ok" /\ (WRun \/ WFinish) /\ UNCHANGED wsnap
                \/ k = "ok" /\ WCount
                \/ k = "fail" /\ WOpFail
                \/ k = "fail" /\ WCommitFail /\ UNCHANGED wsnap
             /\ Log([a |-> "worker", n |-> 0, s |-> 0, d |-> k])
CrashNow == /\ ncrash < MaxCrashes /\ ncrash' = ncrash + 1 /\ Crash /\ pc' = [c \in Callers |-> "idle"] /\ snap' = [c \in Callers |-> <<>>] /\ wpc' = "idle"
            /\ Log([a |-> "crash", n |-> 0, s |-> 0, d |-> ""]) /\ UNCHANGED <<wsnap, errs, ncalls, bad, vers, res>>
Steps == (\E c \in Some(Callers) : Start(c) \/ CallerCommit(c) \/ CallerFail(c) \/ CallerReturn(c)) \/ WBegin \/ Worker("ok") \/ Worker("fail") \/ CrashNow
Out == /\ PrintT("BEH " \o ToJson(hist_)) /\ hist_' = <<>>
       /\ ver' = 0 /\ gid' = 0 /\ dbs' = {} /\ queue' = <<>> /\ hist' = <<>> /\ done' = FALSE /\ used' = {} /\ calls' = <<>> /\ faults' = 0 /\ ncommit' = 0 /\ recs' = <<>>
       /\ pc' = [c \in Callers |-> "idle"] /\ snap' = [c \in Callers |-> <<>>] /\ wpc' = "idle" /\ wsnap' = <<>> /\ errs' = 0
       /\ ncalls' = 0 /\ ncrash' = 0 /\ bad' = FALSE /\ vers' = [q |-> 0, d |-> 0, g |-> 0, v |-> 0] /\ res' = <<>>
MNext == IF Emit /\ Len(hist_) >= Depth THEN Out ELSE Steps
MSpec == MInit /\ [][MNext]_mvars
\* what callers know of ids and counters does not matter beyond equality: ncommit is only compared
View == <<ver, gid, dbs, queue, hist, done, used, [c \in DOMAIN calls |-> <<calls[c].name, calls[c].job, calls[c].full, faults > calls[c].f, ncommit > calls[c].n>>],
          faults, recs, pc, [c \in Callers |-> IF snap[c] = <<>> THEN <<>> ELSE <<snap[c].name, snap[c].id, [x \in DOMAIN vers |-> snap[c].vers[x] = vers[x]]>>],
          wpc, IF wpc = "idle" THEN <<>> ELSE <<wsnap.job.id, [x \in DOMAIN vers |-> wsnap.vers[x] = vers[x]]>>, errs, ncalls, ncrash, bad>>
\* ------------------------------------------------ properties
Conforms == ~bad
\* with nothing failing any more everything accepted ends, and everybody gets an answer
NeverWedged == /\ queue # <<>> /\ wpc = "idle" => ENABLED WBegin
               /\ wpc # "idle" => ENABLED Worker("ok")
               /\ \A c \in Callers : pc[c] = "wait" /\ queue = <<>> => snap[c].id \in DOMAIN hist
OkMeansCreated == \A i \in DOMAIN hist : hist[i].ok => \E d \in dbs : i = d.ids[1] + 2
FailedMeansNot == \A i \in DOMAIN hist : ~hist[i].ok => ~\E d \in dbs : i = d.ids[1] + 2
CreatedMeansAccepted == \A d \in dbs : d.ids[1] + 2 \in DOMAIN hist \/ (queue # <<>> /\ done /\ Head(queue).id = d.ids[1] + 2)
=============================================================================
