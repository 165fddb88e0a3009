-------------------------------- MODULE Index --------------------------------
(***************************************************************************)
(* The index catalogue of the legacy document database, as seen from        *)
(* outside: calls, the commits they make, what they answer, what the        *)
(* collections show and what a fresh process reads.                         *)
(* A definition is [name, cols, uniq]; a column is [n, d] (d: descending).  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES cat,   \* collection -> set of definitions committed
          ids,   \* index ids handed out
          pend   \* caller -> its call under way
ivars == <<cat, ids, pend>>
None == <<>>
Set(s) == {s[i] : i \in 1..Len(s)}
At(c) == IF c \in DOMAIN cat THEN cat[c] ELSE {}
Idle(g) == g \notin DOMAIN pend
Quiet == DOMAIN pend = {}

\* what makes two lists of columns the same: the direction of a single column does not matter
Key(cols) == IF Len(cols) = 1 THEN {<<cols[1].n, FALSE>>} ELSE {<<cols[i].n, cols[i].d>> : i \in 1..Len(cols)}
Clash(d, S) == \E x \in S : x.name = d.name \/ Key(x.cols) = Key(d.cols)
Named(nm, S) == {x \in S : x.name = nm}
Refused(p) == p.badname \/ (p.op = "create" /\ p.def.cols = <<>>)

IInit == cat = <<>> /\ ids = {} /\ pend = <<>>
IReset == cat' = <<>> /\ ids' = {} /\ pend' = <<>>

\* seen: the states of the collection while the call was under way
Call(ev) == /\ Idle(ev.g)
            /\ pend' = (ev.g :> [op |-> ev.op, c |-> ev.c, badname |-> ev.badname, long |-> ev.long,
                                 def |-> IF ev.op = "create" THEN ev.def ELSE None,
                                 name |-> IF ev.op = "create" THEN ev.def.name ELSE ev.name,
                                 seen |-> {At(ev.c)}, own |-> FALSE, others |-> FALSE]) @@ pend
            /\ UNCHANGED <<cat, ids>>

CommitOk(g) == /\ ~Idle(g)
               /\ LET p == pend[g] IN
                  /\ ~p.own /\ ~Refused(p)
                  /\ IF p.op = "create" THEN ~Clash(p.def, At(p.c)) ELSE Named(p.name, At(p.c)) # {}
After(g) == LET p == pend[g] IN
            IF p.op = "create" THEN At(p.c) \cup {p.def} ELSE At(p.c) \ Named(p.name, At(p.c))
Commit(g) == /\ CommitOk(g)
             /\ LET p == pend[g]  S == After(g) IN
                /\ cat' = (p.c :> S) @@ cat
                /\ pend' = [h \in DOMAIN pend |->
                              IF h = g THEN [pend[h] EXCEPT !.own = TRUE]
                              ELSE [pend[h] EXCEPT !.others = TRUE, !.seen = IF pend[h].c = p.c THEN @ \cup {S} ELSE @]]
                /\ UNCHANGED ids

RetOk(g, ev) ==
  /\ ~Idle(g)
  /\ LET p == pend[g] IN
     /\ p.op = "create" => ev.kept                                  \* the arguments stay as they were
     /\ IF Refused(p) THEN ev.r = "bad" /\ ~p.own
        ELSE IF ev.fault THEN ev.r = "err" /\ ~p.own                \* a failure is reported, and nothing was done
        ELSE IF ev.r = "err" THEN ~p.own /\ (p.long \/ p.others)    \* too long to be stored, or somebody was faster
        ELSE IF p.op = "create"
             THEN IF ev.r = "ok" THEN p.own /\ ev.iid \notin ids
                  ELSE ev.r = "dup" /\ ~p.own /\ \E S \in p.seen : Clash(p.def, S)
             ELSE ev.r = "ok" /\ IF ev.exists THEN p.own ELSE ~p.own /\ \E S \in p.seen : Named(p.name, S) = {}
Ret(g, ev) == /\ RetOk(g, ev)
              /\ pend' = [h \in DOMAIN pend \ {g} |-> pend[h]]
              /\ ids' = IF pend[g].op = "create" /\ ev.r = "ok" THEN ids \cup {ev.iid} ELSE ids
              /\ UNCHANGED cat

\* what a collection shows, and what a fresh process reads, when nobody changes anything
Show(ev) == Quiet /\ ev.r = "ok" /\ Len(ev.defs) = Cardinality(At(ev.c)) /\ Set(ev.defs) = At(ev.c) /\ UNCHANGED ivars
=============================================================================
