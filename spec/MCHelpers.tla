------------------------------ MODULE MCHelpers ------------------------------
(* The algorithms of the helpers, used by a caller that makes Steps steps in  *)
(* one logical unit of work with transactions that hold Cap steps, mixed with *)
(* single runs of the others; every outcome of f and of Commit.  Everything   *)
(* they do must be allowed by Helpers.tla, and the steps end up in the store  *)
(* once each, in order.                                                       *)
EXTENDS Helpers, Json
CONSTANTS Steps, Caps, Tries, MaxRuns, Depth
VARIABLES pc, next, cap, runs, nt, good, giveup, hist
mvars == <<hvars, pc, next, cap, runs, nt, good, giveup, hist>>
Emit == Depth > 0
Some(S) == IF Emit THEN {RandomElement(S)} ELSE S
MInit == HInit /\ pc = "idle" /\ next = 1 /\ cap \in Caps /\ runs = 0 /\ nt = 0 /\ good = TRUE /\ giveup = FALSE /\ hist = <<>>
Keep == UNCHANGED <<next, cap, runs, giveup, hist>>
Do(act) == act   \* enabled by construction; Allowed checks what would not be
\* ---- the caller
StartTry == pc = "idle" /\ next <= Steps /\ ~giveup /\ held # 0 /\ Start([h |-> "try", t |-> held, cbs |-> {}]) /\ pc' = "try" /\ UNCHANGED <<next, cap, runs, nt, good, giveup, hist>>
Take == pc = "idle" /\ held = 0 /\ kept = <<>> /\ ~giveup /\ Hold([t |-> nt + 1]) /\ nt' = nt + 1 /\ UNCHANGED <<pc, next, cap, runs, good, giveup, hist>>
Finish == /\ pc = "idle" /\ held # 0 /\ (next > Steps \/ giveup)
          /\ \E r \in {"ok", "err"} : (r = "ok" => txn[held].st = "open" /\ ~giveup) /\ Release([t |-> held, r |-> r]) /\ giveup' = TRUE
          /\ UNCHANGED <<pc, next, cap, runs, nt, good, hist>>
\* ---- TryCommitWhenTxnTooBig
TryF == /\ pc = "try" /\ run.phase = "f"
        /\ \/ Len(txn[run.t].w) < cap /\ F([t |-> run.t, r |-> "ok", w |-> <<next>>]) /\ next' = next + 1
           \/ Len(txn[run.t].w) >= cap /\ F([t |-> run.t, r |-> "toobig", w |-> <<>>]) /\ UNCHANGED next
           \/ F([t |-> run.t, r |-> "err", w |-> <<>>]) /\ UNCHANGED next
        /\ UNCHANGED <<pc, cap, runs, nt, good, giveup, hist>>
TryNext == /\ pc = "try" /\ run.phase = "ran"
           /\ IF run.fr # "toobig" \/ run.tries >= Tries
              THEN LET ev == [r |-> run.fr, t |-> run.t] IN
                   IF DoneOk(ev) THEN Done(ev) /\ pc' = "idle" /\ giveup' = (run.fr # "ok") /\ UNCHANGED good
                   ELSE good' = FALSE /\ UNCHANGED <<hvars, pc, giveup>>
              ELSE (\E r \in {"ok", "err"} : Commit([t |-> run.t, r |-> r])) /\ UNCHANGED <<pc, good, giveup>>
           /\ UNCHANGED <<next, cap, runs, nt, hist>>
TryOver == /\ pc = "try" /\ run.phase = "over"
           /\ IF run.cr = "ok" THEN Begin([t |-> nt + 1, upd |-> TRUE]) /\ nt' = nt + 1 /\ UNCHANGED <<pc, giveup>>
              ELSE Done([r |-> run.cr, t |-> run.t]) /\ pc' = "idle" /\ giveup' = TRUE /\ UNCHANGED nt
           /\ UNCHANGED <<next, cap, runs, good, hist>>
\* ---- the helpers with a transaction of their own
StartOne == /\ pc = "idle" /\ runs < MaxRuns /\ runs' = runs + 1
            /\ \E h \in {"update", "cancel", "callback", "view", "docupdate", "docview"}, cbs \in SUBSET {1, 2} : Start([h |-> h, t |-> 0, cbs |-> cbs])
            /\ pc' = "one" /\ UNCHANGED <<next, cap, nt, good, giveup, hist>>
OneBegin == pc = "one" /\ run.phase = "begin" /\ Begin([t |-> nt + 1, upd |-> ~View]) /\ nt' = nt + 1 /\ UNCHANGED <<pc, good>> /\ Keep
OneF == /\ pc = "one" /\ run.phase = "f" /\ (\E r \in {"ok", "err", "toobig", "panic"} : F([t |-> run.t, r |-> r, w |-> <<>>]))
        /\ UNCHANGED <<pc, nt, good>> /\ Keep
OneCommit == pc = "one" /\ run.phase = "ran" /\ run.fr = "ok" /\ ~View /\ (\E r \in {"ok", "err"} : Commit([t |-> run.t, r |-> r])) /\ UNCHANGED <<pc, nt, good>> /\ Keep
OneCall == pc = "one" /\ run.phase = "over" /\ (\E n \in Due \ run.called : Called([n |-> n])) /\ UNCHANGED <<pc, nt, good>> /\ Keep
OneLeave == /\ pc = "one" /\ (run.phase = "over" \/ (run.phase = "ran" /\ (run.fr # "ok" \/ View))) /\ ~ENABLED OneCall
            /\ txn[run.t].st \in {"open", "failed"} /\ Discard([t |-> run.t]) /\ UNCHANGED <<pc, nt, good>> /\ Keep
OneDone == /\ pc = "one" /\ (run.phase = "over" \/ (run.phase = "ran" /\ (run.fr # "ok" \/ View))) /\ ~ENABLED OneCall
           /\ txn[run.t].st \in {"ok", "gone"}
           /\ LET ev == [r |-> IF run.phase = "over" THEN run.cr ELSE run.fr, t |-> 0] IN
              IF DoneOk(ev) THEN Done(ev) /\ pc' = "idle" /\ UNCHANGED good ELSE good' = FALSE /\ UNCHANGED <<hvars, pc>>
           /\ UNCHANGED nt /\ Keep
\* ---- generated programs: a list of runs and what is to happen in each
GenStep == \E h \in Some({"update", "cancel", "callback", "view", "docupdate", "docview", "try", "work"}), f \in Some(1..8), c \in Some(1..4), cb \in Some(0..3), n \in Some(1..6), k \in Some(Caps) :
  /\ hist' = Append(hist, [h |-> h, f |-> CASE f = 1 -> "err" [] f = 2 -> "panic" [] f = 3 -> "toobig" [] OTHER -> "ok", c |-> IF c = 1 THEN n ELSE 0, cb |-> cb, n |-> n, cap |-> k])
  /\ UNCHANGED <<hvars, pc, next, cap, runs, nt, good, giveup>>
Flush == PrintT("BEH " \o ToJson(hist)) /\ hist' = <<>> /\ UNCHANGED <<hvars, pc, next, cap, runs, nt, good, giveup>>
MNext == IF Emit THEN IF Len(hist) >= Depth THEN Flush ELSE GenStep
         ELSE StartTry \/ Take \/ Finish \/ TryF \/ TryNext \/ TryOver \/ StartOne \/ OneBegin \/ OneF \/ OneCommit \/ OneCall \/ OneLeave \/ OneDone
MSpec == MInit /\ [][MNext]_mvars
Allowed == good
Up(s) == \A i \in 1..Len(s) : s[i] = i
Once == Up(kept) /\ (held # 0 /\ txn[held].st = "open" => Up(kept \o txn[IF Busy /\ IsTry THEN run.t ELSE held].w))
\* nobody is stuck in a helper
Ends == Busy => ENABLED (TryF \/ TryNext \/ TryOver \/ OneBegin \/ OneF \/ OneCommit \/ OneCall \/ OneLeave \/ OneDone)
=============================================================================
