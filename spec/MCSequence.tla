----------------------------- MODULE MCSequence -----------------------------
(* The lease algorithm in steps: a call that needs a lease reads the stored   *)
(* value when its transaction begins and commits in a later step, with        *)
(* conflicts, failing commits and crashes.  Checked against the observer.     *)
EXTENDS Sequence, Json
CONSTANTS Insts, BW, MaxStored, MaxOps, Kind, Emit, Depth,
          Bugs    \* {""}: the algorithm as it should be.  Otherwise wrong algorithms, to generate the schedules that tell them apart:
                  \* early/adopt: the start/all of a lease is adopted although its commit failed; handback: ids are handed back whatever
                  \* others have leased meanwhile; relkeep: a release that reports an error keeps its ids; nocheck: leases ignore conflicts
VARIABLES stored, ver, inst, obs, n, hist, bug
vars == <<stored, ver, inst, obs, n, hist, bug>>
None == [st |-> "none", next |-> 0, leased |-> 0, op |-> "", k |-> 0, val |-> 0, ver |-> 0, over |-> FALSE, pb |-> <<>>]
Init == stored = 0 /\ ver = 0 /\ inst = [i \in Insts |-> None] /\ obs = {Obs0} /\ n = 0 /\ hist = <<>> /\ bug \in Bugs
Early == bug # ""
H(x) == hist' = IF Emit THEN Append(hist, x) ELSE hist
Say(ev) == obs' = UNION {Obs(o, ev) : o \in obs}
Mid(i) == inst[i].st = "mid"
Overlap(i) == [j \in Insts |-> IF j # i /\ Mid(j) THEN [inst[j] EXCEPT !.over = TRUE] ELSE inst[j]]
Base(e, i, r) == [e |-> e, i |-> i, r |-> r, conc |-> FALSE, may |-> FALSE]
Stale(i) == inst[i].st = "dead" \/ \E o \in obs : i \in o.stale

\* a call that needs no transaction
Now(i, ev, new) == inst' = [inst EXCEPT ![i] = new] /\ Say(ev) /\ UNCHANGED <<stored, ver>>
\* a call that begins a transaction
Begin(i, op, k) == /\ inst' = [Overlap(i) EXCEPT ![i] = [@ EXCEPT !.st = "mid", !.op = op, !.k = k, !.val = stored, !.ver = ver,
                                                             !.over = \E j \in Insts \ {i} : Mid(j)]]
                   /\ UNCHANGED <<stored, ver, obs>>
Call(i, op, k) ==
  LET s == inst[i] IN
  /\ n < MaxOps /\ n' = n + 1 /\ ~Mid(i) /\ ~Stale(i)
  \* a clear that overlaps calls of other instances promises nothing: not explored
  /\ \A j \in Insts : Mid(j) => op # "clear" /\ inst[j].op # "clear"
  /\ H([a |-> "call", i |-> i, op |-> op, n |-> k])
  /\ CASE op = "new" -> s.st = "none" /\ Begin(i, op, k)
       [] s.st = "none" -> FALSE
       [] s.st = "closed" -> op \in {"next", "release"} /\ Now(i, Base(op, i, "closed") @@ [v |-> 0], s)
       [] op = "next" -> IF s.pb # <<>> THEN Now(i, Base(op, i, "ok") @@ [v |-> s.pb[Len(s.pb)]], [s EXCEPT !.pb = SubSeq(@, 1, Len(@) - 1)])
                         ELSE IF s.next < s.leased THEN Now(i, Base(op, i, "ok") @@ [v |-> s.next + 1], [s EXCEPT !.next = @ + 1])
                         ELSE Begin(i, op, BW)
       [] op = "nextn" -> IF s.next + k <= s.leased THEN Now(i, Base(op, i, "ok") @@ [n |-> k, rs |-> <<<<s.next, s.next + k>>>>], [s EXCEPT !.next = @ + k])
                          ELSE Begin(i, op, k)
       [] op = "putback" -> (\A o \in obs : s.next \in o.used) /\ s.next > 0 /\ Now(i, Base(op, i, "ok") @@ [v |-> s.next], [s EXCEPT !.pb = Append(@, s.next)])
       [] op \in {"release", "closerel"} -> IF s.next = s.leased
            THEN Now(i, Base(IF op = "release" THEN op ELSE "close", i, "ok") @@ [rel |-> TRUE], [s EXCEPT !.st = IF op = "release" THEN "idle" ELSE "closed"])
            ELSE Begin(i, op, k)
       [] op = "close" -> Now(i, Base(op, i, "ok") @@ [rel |-> FALSE], [s EXCEPT !.st = "closed"])
       [] op \in {"clear", "renew"} -> Begin(i, op, k)

\* the commit of the pending transaction; how: ok, failbefore (nothing stored), failafter (stored, error reported)
Step(i, how) ==
  LET s == inst[i]
      blind == s.op = "clear" /\ Kind = "string"
      conflict == ver # s.ver /\ ~blind /\ bug # "nocheck"
      remain == s.leased - s.next
      step == IF s.op = "nextn" THEN s.k + BW - remain ELSE BW
      lease == s.op \in {"new", "next", "nextn", "renew"}
      handback == s.op \in {"release", "closerel"} /\ (s.val = s.leased \/ bug = "handback")
      sv == IF lease THEN s.val + step ELSE IF s.op = "clear" THEN 0 ELSE IF handback THEN s.next ELSE s.val
      writes == lease \/ s.op = "clear" \/ handback
      eff == how # "failbefore" /\ ~(conflict /\ writes)
      ok == eff /\ how = "ok"
      evn == IF s.op = "closerel" THEN "close" ELSE s.op
      back == IF s.op = "closerel" THEN "closed" ELSE IF s.op = "new" /\ ~ok THEN "none" ELSE "idle"
      B == [e |-> evn, i |-> i, r |-> IF ok THEN "ok" ELSE "err", conc |-> FALSE, may |-> s.over \/ how # "ok", rel |-> TRUE]
      oth == Overlap(i)
  IN
  /\ Mid(i) /\ H([a |-> "step", i |-> i, how |-> how]) /\ UNCHANGED n
  /\ stored' = IF eff /\ writes THEN sv ELSE stored
  /\ ver' = IF eff /\ writes THEN ver + 1 ELSE ver
  /\ IF ~ok THEN inst' = [oth EXCEPT ![i].st = back, ![i].leased = IF s.op \in {"release", "closerel"} /\ bug # "relkeep" THEN s.next
                                                                                                  ELSE IF bug = "adopt" /\ lease THEN s.val + step ELSE @,
                                                          ![i].next = IF bug \in {"early", "adopt"} /\ lease THEN s.val ELSE @] /\ Say(B @@ [v |-> 0, n |-> s.k, rs |-> <<>>])
     ELSE CASE s.op \in {"new", "renew"} -> inst' = [oth EXCEPT ![i] = [@ EXCEPT !.st = "idle", !.next = s.val, !.leased = s.val + step]] /\ Say(B)
            [] s.op = "next" -> inst' = [oth EXCEPT ![i] = [@ EXCEPT !.st = "idle", !.next = s.val + 1, !.leased = s.val + step]] /\ Say(B @@ [v |-> s.val + 1])
            [] s.op = "nextn" -> LET r2 == <<s.val, s.val + s.k - remain>> IN
                 inst' = [oth EXCEPT ![i] = [@ EXCEPT !.st = "idle", !.next = r2[2], !.leased = s.val + step]]
                 /\ Say(B @@ [n |-> s.k, rs |-> IF remain > 0 THEN <<<<s.next, s.leased>>, r2>> ELSE <<r2>>])
            [] s.op = "clear" -> inst' = [oth EXCEPT ![i] = [@ EXCEPT !.st = "idle", !.next = 0, !.leased = 0, !.pb = <<>>]] /\ Say(B)
            [] OTHER -> inst' = [oth EXCEPT ![i] = [@ EXCEPT !.st = back, !.leased = s.next]] /\ Say(B)
Crash == /\ n < MaxOps /\ (Emit => Len(hist) % 9 = 8) /\ n' = n + 1 /\ \E i \in Insts : inst[i].st \in {"idle", "mid"}
         /\ inst' = [i \in Insts |-> IF inst[i].st = "none" \/ (Mid(i) /\ inst[i].op = "new") THEN None ELSE [None EXCEPT !.st = "dead"]]
         /\ Say([e |-> "crash", i |-> 0]) /\ UNCHANGED <<stored, ver>> /\ H([a |-> "crash"])
\* a dead instance's name can be used again
Again(i) == inst[i].st \in {"dead", "closed"} /\ inst' = [inst EXCEPT ![i] = None] /\ UNCHANGED <<stored, ver, n, hist>>
            /\ obs' = {[o EXCEPT !.stale = @ \ {i}, !.closed = @ \ {i}] : o \in obs} /\ ~Emit
OpsOf == IF Kind = "legacy" THEN {<<"new", 0>>, <<"next", 0>>, <<"release", 0>>}
         ELSE {<<"new", 0>>, <<"next", 0>>, <<"nextn", 1>>, <<"nextn", BW + 1>>, <<"release", 0>>, <<"closerel", 0>>, <<"close", 0>>, <<"clear", 0>>, <<"renew", 0>>, <<"putback", 0>>}
Next ==
  UNCHANGED bug /\
  IF Early /\ Emit
  THEN \* only the schedules (without failures of the store) in which the wrong algorithm hands out an id twice
       IF obs = {} THEN PrintT("BEH " \o ToJson(hist)) /\ FALSE
       ELSE \/ \E i \in Insts, c \in OpsOf : Call(i, c[1], c[2])
            \/ \E i \in Insts : Step(i, "ok")
            \/ bug = "relkeep" /\ \E i \in Insts : inst[i].op = "release" /\ Step(i, "failafter")
  ELSE IF Emit /\ Len(hist) >= Depth THEN PrintT("BEH " \o ToJson(hist)) /\ hist' = <<>> /\ UNCHANGED <<stored, ver, inst, obs, n>>
  ELSE \/ \E i \in Insts : \E c \in OpsOf : Call(i, c[1], c[2])
       \/ \E i \in Insts : \E how \in {"ok", "failbefore", "failafter"} : Step(i, how)
       \/ \E i \in Insts : Again(i)
       \/ Crash
Spec == Init /\ [][Next]_vars
EarlyView == <<stored, inst, obs, bug>>
NoDup == obs # {}
Bound == stored <= MaxStored
Sane == \A i \in Insts : inst[i].st \in {"idle", "mid"} /\ ~Stale(i) /\ ~(inst[i].op = "new" /\ Mid(i)) => inst[i].next <= inst[i].leased
=============================================================================
