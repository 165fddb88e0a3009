------------------------------- MODULE Handle -------------------------------
(***************************************************************************)
(* The handle that holds the current schema cache, against which a          *)
(* transaction is checked before it commits.  hs are the caches the handle   *)
(* has held, oldest first ([ver, reach]; ver = -1: none yet); chg are the    *)
(* collections each version touched; a cache loaded as a whole knows nothing *)
(* of what happened up to its version (reach).                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT MaxDiffs
VARIABLES hs, chg
hvars == <<hs, chg>>
None == [ver |-> -1, reach |-> -1]
Set(s) == {s[i] : i \in 1..Len(s)}
HInit == hs = <<None>> /\ chg = <<>>
HReset == hs' = <<None>> /\ chg' = <<>>
Last == hs[Len(hs)]

\* the answers allowed to a check of start against current
Answers(start, cur, refs) ==
  IF start.ver = cur.ver THEN {"ok"}
  ELSE IF start.ver = -1 THEN {"conflict"} \cup (IF refs = {} THEN {"ok"} ELSE {})   \* it began without a schema
  ELSE IF start.ver < cur.reach THEN {"conflict"}                                     \* nobody knows what changed
  ELSE IF \E v \in (start.ver + 1)..cur.ver : v \in DOMAIN chg /\ chg[v] \cap refs # {} THEN {"conflict"}
  ELSE IF cur.ver - start.ver <= MaxDiffs THEN {"ok"}
  ELSE {"ok", "conflict"}                                                             \* it may not be recorded any more

\* versions cur+1.. with the collections they touched, applied one by one to the current cache
Apply(ds) == LET v0 == IF Last.ver = -1 THEN 0 ELSE Last.ver IN
  /\ chg' = [v \in DOMAIN chg \cup ((v0 + 1)..(v0 + Len(ds))) |-> IF v > v0 THEN Set(ds[v - v0]) ELSE chg[v]]
  /\ hs' = Append(hs, [ver |-> v0 + Len(ds), reach |-> IF Last.ver = -1 THEN 0 ELSE Last.reach])
\* the whole schema at version v
Load(v) == (v >= Last.ver) /\ hs' = Append(hs, [ver |-> v, reach |-> v]) /\ UNCHANGED chg

\* an update: done for certain, or (may) given up because of its context
Update(ev) == IF ev.r = "err" THEN ev.may /\ UNCHANGED hvars
              ELSE ev.r = "ok" /\ IF ev.full THEN Load(ev.v) ELSE Apply(ev.ds)
\* the handle held one of hs[lo..hi] while the check ran
Check(ev) == /\ UNCHANGED hvars
             /\ IF ev.r = "err" THEN ev.may
                ELSE \E i \in ev.lo..ev.hi : ev.r \in Answers(hs[ev.start], hs[i], Set(ev.refs))
=============================================================================
