--------------------------------- MODULE Ddl ---------------------------------
(***************************************************************************)
(* Schema changes: requests are accepted into a queue, a worker carries the *)
(* head of the queue out and moves it to the history.  The state is the     *)
(* committed catalogue; each committed transaction of the code is one       *)
(* Commit step described by what it changed (ev), and must be one of:       *)
(*   accept   an open request enters at the tail of the queue, with new ids *)
(*   run      the head takes effect: its database appears as requested, the *)
(*            version moves by one and that change is recorded              *)
(*   step     an added index advances one state; one version, one record    *)
(*   finish   the head leaves for the history with its outcome              *)
(*   nothing visible                                                        *)
(* Requests return what happened to them; caches show the databases of the  *)
(* version they carry.                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT MaxQueue
VARIABLES ver, gid, dbs, queue, hist, done, used, calls, faults, ncommit, recs
dvars == <<ver, gid, dbs, queue, hist, done, used, calls, faults, ncommit, recs>>
\* dbs: set of [name, sig, ids, v];  queue: seq of [id, name, sig, ids, cids, typ, f];  hist: id -> [ok, err]
\* done: the head of the queue has taken effect;  recs: version -> the recorded change
\* calls: c -> [name, sig, valid, may, job, full, f, n]
ToSet(s) == {s[i] : i \in 1..Len(s)}
DInit == /\ ver = 0 /\ gid = 0 /\ dbs = {} /\ queue = <<>> /\ hist = <<>> /\ done = FALSE /\ used = {} /\ calls = <<>>
         /\ faults = 0 /\ ncommit = 0 /\ recs = <<>>
Names == {d.name : d \in dbs}
QIds(q) == [i \in 1..Len(q) |-> q[i].id]
JIds(j) == {j.id} \cup ToSet(j.ids)
Quiet(ev) == ev.hist = <<>> /\ ev.add = <<>> /\ ev.chg = <<>> /\ ev.diff = <<>> /\ ev.ver = ver

\* ------------------------------------------------ what a committed transaction may have done
Takes(c, j) == calls[c].job = 0 /\ calls[c].name = j.name /\ calls[c].sig = j.sig /\ calls[c].typ = j.typ
               /\ (calls[c].valid \/ calls[c].typ = "bad")
AcceptOK(ev) == /\ Len(ev.newq) = 1
                /\ LET j == ev.newq[1] IN
                   /\ ev.q = Append(QIds(queue), j.id)
                   /\ Cardinality(JIds(j)) = 1 + Len(j.ids) /\ JIds(j) \cap used = {}
                   /\ \A i \in JIds(j) : gid < i /\ i <= ev.gid
                   /\ \E c \in DOMAIN calls : Takes(c, j)
                /\ Len(queue) < MaxQueue /\ Quiet(ev)
Rec(v, j) == [v |-> v, typ |-> j.typ, name |-> j.name, sig |-> j.sig, ids |-> j.ids]
RunOK(ev) == /\ queue # <<>> /\ ~done
             /\ LET j == Head(queue) IN
                /\ j.typ = "schema" /\ j.name \notin Names
                /\ Len(ev.add) = 1 /\ ev.add[1].name = j.name /\ ev.add[1].sig = j.sig /\ ev.add[1].csig = j.sig /\ ev.add[1].ids = j.ids
                /\ ev.ver = ver + 1
                /\ Len(ev.diff) = 1 /\ ev.diff[1].v = ver + 1 /\ ev.diff[1].typ = j.typ /\ ev.diff[1].name = j.name
                /\ ev.diff[1].sig = j.sig /\ ev.diff[1].ids = j.ids /\ ToSet(ev.diff[1].cids) = ToSet(j.cids)
             /\ ev.chg = <<>> /\ ev.newq = <<>>
FailAllowed(j) == j.typ # "schema" \/ j.name \in Names \/ faults > j.f
FinishOK(ev, d) == /\ queue # <<>> /\ Len(ev.hist) = 1
                   /\ ev.hist[1].id = Head(queue).id /\ Head(queue).id \notin DOMAIN hist
                   /\ ev.hist[1].ok = d
                   /\ ~d => ev.hist[1].err # "" /\ FailAllowed(Head(queue))
                   /\ ev.q = QIds(Tail(queue)) /\ ev.newq = <<>> /\ ev.chg = <<>>
StepOK(ev) == /\ queue # <<>> /\ Head(queue).typ = "index" /\ ~done
              /\ ev.add = <<>> /\ Len(ev.chg) = 1 /\ ev.chg[1].csig = ev.chg[1].sig
              /\ \E d \in dbs : d.name = Head(queue).name /\ d.name = ev.chg[1].name
              /\ ev.ver = ver + 1 /\ Len(ev.diff) = 1 /\ ev.diff[1].v = ver + 1 /\ ev.diff[1].typ = "index"
              /\ ev.diff[1].cids # <<>> /\ \E d \in dbs : d.name = Head(queue).name /\ ToSet(ev.diff[1].cids) \subseteq ToSet(d.ids)
              /\ ev.newq = <<>> /\ ev.hist = <<>> /\ ev.q = QIds(queue)
Kind(ev) == CASE ev.newq # <<>> -> IF AcceptOK(ev) THEN "accept" ELSE "wrong"
              [] ev.chg # <<>> -> IF StepOK(ev) THEN "step" ELSE "wrong"
              [] ev.add # <<>> /\ ev.hist # <<>> -> IF RunOK(ev) /\ FinishOK(ev, TRUE) THEN "runfinish" ELSE "wrong"
              [] ev.add # <<>> -> IF RunOK(ev) /\ ev.q = QIds(queue) THEN "run" ELSE "wrong"
              [] ev.hist # <<>> -> IF Quiet([ev EXCEPT !.hist = <<>>]) /\ FinishOK(ev, IF Head(queue).typ = "index" THEN ev.hist[1].ok ELSE done) THEN "finish" ELSE "wrong"
              [] OTHER -> IF Quiet(ev) /\ ev.q = QIds(queue) THEN "none" ELSE "wrong"
CommitOK(ev) == ev.gid >= gid /\ Kind(ev) # "wrong"
Flag(cs, n) == [c \in DOMAIN cs |-> IF n >= MaxQueue THEN [cs[c] EXCEPT !.full = TRUE] ELSE cs[c]]
Run(ev) == /\ dbs' = dbs \cup {[name |-> d.name, sig |-> d.sig, ids |-> d.ids, v |-> ev.ver] : d \in ToSet(ev.add)}
           /\ recs' = [x \in DOMAIN recs \cup {ev.ver} |-> IF x = ev.ver THEN Rec(ev.ver, Head(queue)) ELSE recs[x]]
Finish(ev) == /\ hist' = [x \in DOMAIN hist \cup {ev.hist[1].id} |-> IF x = ev.hist[1].id THEN [ok |-> ev.hist[1].ok, err |-> ev.hist[1].err] ELSE hist[x]]
              /\ queue' = Tail(queue) /\ done' = FALSE
Commit(ev) ==
  /\ ver' = ev.ver /\ gid' = ev.gid /\ ncommit' = ncommit + 1 /\ UNCHANGED faults
  /\ \E k \in {Kind(ev)} :
     CASE k = "accept" -> \E c \in DOMAIN calls : LET j == ev.newq[1] IN
            /\ Takes(c, j) /\ calls' = Flag([calls EXCEPT ![c].job = j.id], Len(ev.q)) /\ used' = used \cup JIds(j)
            /\ queue' = Append(queue, [id |-> j.id, name |-> j.name, sig |-> j.sig, ids |-> j.ids, cids |-> j.cids, typ |-> j.typ, f |-> calls[c].f])
            /\ UNCHANGED <<dbs, hist, done, recs>>
       [] k = "run" -> Run(ev) /\ done' = TRUE /\ UNCHANGED <<queue, hist, used, calls>>
       [] k = "step" -> /\ dbs' = {IF d.name = ev.chg[1].name THEN [d EXCEPT !.sig = ev.chg[1].sig, !.ids = ev.chg[1].ids] ELSE d : d \in dbs}
                        /\ recs' = [x \in DOMAIN recs \cup {ev.ver} |-> IF x = ev.ver THEN Rec(ev.ver, Head(queue)) ELSE recs[x]]
                        /\ UNCHANGED <<queue, hist, used, calls, done>>
       [] k = "finish" -> Finish(ev) /\ UNCHANGED <<dbs, used, calls, recs>>
       [] k = "runfinish" -> Run(ev) /\ Finish(ev) /\ UNCHANGED <<used, calls>>
       [] OTHER -> UNCHANGED <<dbs, queue, hist, done, used, calls, recs>>

\* ------------------------------------------------ requests
\* valid: the request can be carried out as given; may: its context may end
Call(ev) == /\ calls' = [c \in DOMAIN calls \cup {ev.c} |-> IF c = ev.c
                 THEN [name |-> ev.name, sig |-> ev.sig, typ |-> ev.typ, valid |-> ev.valid, may |-> ev.may, job |-> 0, full |-> Len(queue) >= MaxQueue, f |-> faults, n |-> ncommit]
                 ELSE calls[c]]
            /\ UNCHANGED <<ver, gid, dbs, queue, hist, done, used, faults, ncommit, recs>>
RetOK(ev) == /\ ev.c \in DOMAIN calls
             /\ LET k == calls[ev.c] IN
                IF k.job # 0
                THEN IF k.job \in DOMAIN hist
                     THEN IF ev.r = "ctx" THEN k.may
                          ELSE IF hist[k.job].ok THEN ev.r = "ok" /\ ev.id = k.job
                          ELSE ev.r # "ok" /\ ev.detail = hist[k.job].err
                     ELSE ev.r = "ctx" /\ k.may
                ELSE CASE ev.r = "invalid" -> ~k.valid
                       [] ev.r = "exists" -> k.name \in Names
                       [] ev.r = "notexists" -> k.typ = "index"
                       [] ev.r = "full" -> k.full
                       [] ev.r = "conflict" -> ncommit > k.n
                       [] ev.r = "err" -> faults > k.f
                       [] ev.r = "ctx" -> k.may
                       [] OTHER -> FALSE
Ret(ev) == /\ calls' = [c \in DOMAIN calls \ {ev.c} |-> calls[c]]
           /\ UNCHANGED <<ver, gid, dbs, queue, hist, done, used, faults, ncommit, recs>>
\* the process ends: open requests are never answered
Crash == calls' = <<>> /\ UNCHANGED <<ver, gid, dbs, queue, hist, done, used, faults, ncommit, recs>>
Fault == faults' = faults + 1 /\ UNCHANGED <<ver, gid, dbs, queue, hist, done, used, calls, ncommit, recs>>

\* ------------------------------------------------ caches
At(v) == {[name |-> d.name, sig |-> d.sig, ids |-> d.ids] : d \in {e \in dbs : e.v <= v}}
\* a cache shows exactly the databases of its version; has: names that must be there; now: it must be up to date
ViewOK(ev) == /\ ev.ver <= ver /\ (ev.now => ev.ver = ver)
              /\ {[name |-> d.name, sig |-> d.sig, ids |-> d.ids] : d \in ToSet(ev.dbs)} = At(ev.ver)
              /\ ToSet(ev.has) \subseteq {d.name : d \in At(ev.ver)}
\* everything accepted has been dealt with
QuietOK(ev) == ev.r = "ok" /\ queue = <<>> /\ ~done

\* ------------------------------------------------ laws of the specification
NamesUnique == \A d, e \in dbs : d.name = e.name => d = e
IdsUnique == \A d, e \in dbs : d # e => ToSet(d.ids) \cap ToSet(e.ids) = {}
VersionsRecorded == DOMAIN recs = 1..ver
OnePerVersion == (\A v \in DOMAIN recs : recs[v].typ = "schema") => Cardinality(dbs) = ver /\ {d.v : d \in dbs} = 1..ver
NotBoth == \A i \in 1..Len(queue) : queue[i].id \notin DOMAIN hist
OrderKept == \A i, j \in 1..Len(queue) : i < j => queue[i].id < queue[j].id
=============================================================================
