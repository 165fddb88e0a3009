------------------------------- MODULE Helpers -------------------------------
(***************************************************************************)
(* The transaction helpers, seen from the store and from the function and    *)
(* the callbacks they are given.  A run is one call of a helper:             *)
(*   update, cancel, callback : f in a new update transaction, committed     *)
(*   docupdate                : the same of the document database, where f    *)
(*                              registers what is to be called if the commit  *)
(*                              fails                                         *)
(*   view, docview            : f in a new read-only transaction             *)
(*   try                      : f in the given transaction; when f does not  *)
(*                              fit, what is there is committed and f runs   *)
(*                              again in a new one                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS MinTries, MaxTries   \* try gives up after at least and at most so many runs of f
VARIABLES txn,    \* transaction -> [upd, st, w]   st: open ok failed gone; w: steps it has written
          kept,   \* steps in the store, in the order in which they got there
          run,    \* the run under way, or None
          held    \* the transaction the caller holds between runs of try (0: none)
hvars == <<txn, kept, run, held>>
None == <<>>
HInit == txn = <<>> /\ kept = <<>> /\ run = None /\ held = 0
HReset == txn' = <<>> /\ kept' = <<>> /\ run' = None /\ held' = 0
Busy == run # None
View == run.h \in {"view", "docview"}
\* the callbacks that are due now that the commit has succeeded or failed
Due == IF (run.h \in {"cancel", "docupdate"} /\ run.cr # "ok") \/ (run.h = "callback" /\ run.cr = "ok") THEN run.cbs ELSE {}
IsTry == run.h = "try"
\* phase: "begin" (no transaction yet), "f" (f is due), "ran" (f has run: run.fr), "over" (committed or failed: run.cr)
Start(ev) == /\ ~Busy /\ ev.h \in {"update", "cancel", "callback", "view", "docupdate", "docview", "try"}
             /\ (ev.h = "try" => ev.t = held /\ held # 0)
             /\ run' = [h |-> ev.h, t |-> IF ev.h = "try" THEN ev.t ELSE 0, phase |-> IF ev.h = "try" THEN "f" ELSE "begin",
                        tries |-> 0, fr |-> "", cr |-> "", cbs |-> ev.cbs, called |-> {}]
             /\ UNCHANGED <<txn, kept, held>>
Begin(ev) == /\ Busy /\ ev.t \notin DOMAIN txn /\ ev.upd = ~View
             /\ IF IsTry THEN run.phase = "over" /\ run.cr = "ok" ELSE run.phase = "begin"
             /\ txn' = (ev.t :> [upd |-> ev.upd, st |-> "open", w |-> <<>>]) @@ txn
             /\ run' = [run EXCEPT !.t = ev.t, !.phase = "f"]
             /\ UNCHANGED <<kept, held>>
\* f has run in transaction t; w: the steps it has written there
F(ev) == /\ Busy /\ run.phase = "f" /\ ev.t = run.t /\ txn[ev.t].st = "open" /\ run.tries < MaxTries
         /\ txn' = [txn EXCEPT ![ev.t].w = @ \o ev.w]
         /\ run' = [run EXCEPT !.phase = "ran", !.fr = ev.r, !.tries = @ + 1]
         /\ UNCHANGED <<kept, held>>
Commit(ev) == /\ Busy /\ run.phase = "ran" /\ ev.t = run.t /\ txn[ev.t].st = "open"
              /\ ~View
              /\ run.fr = IF IsTry THEN "toobig" ELSE "ok"
              /\ txn' = [txn EXCEPT ![ev.t].st = IF ev.r = "ok" THEN "ok" ELSE "failed"]
              /\ kept' = IF ev.r = "ok" THEN kept \o txn[ev.t].w ELSE kept
              /\ run' = [run EXCEPT !.phase = "over", !.cr = ev.r]
              /\ UNCHANGED held
Discard(ev) == /\ Busy /\ ev.t \in DOMAIN txn
               /\ IF txn[ev.t].st = "open"
                  THEN ~IsTry /\ run.phase = "ran" /\ (run.fr # "ok" \/ View) /\ txn' = [txn EXCEPT ![ev.t].st = "gone"]
                  ELSE txn' = [txn EXCEPT ![ev.t].st = IF @ = "failed" THEN "gone" ELSE @]
               /\ UNCHANGED <<kept, run, held>>
\* the callback the helper was given
Called(ev) == /\ Busy /\ run.phase = "over" /\ ev.n \in Due \ run.called
              /\ run' = [run EXCEPT !.called = @ \cup {ev.n}] /\ UNCHANGED <<txn, kept, held>>
\* the helper is back, with r; t: the transaction it gives back
DoneOk(ev) ==
  /\ Busy
  /\ IF IsTry
     THEN \/ run.phase = "ran" /\ run.fr # "toobig" /\ ev.r = run.fr /\ (ev.r # "panic" => ev.t = run.t)
          \/ run.phase = "ran" /\ run.fr = "toobig" /\ ev.r = "toobig" /\ run.tries >= MinTries /\ ev.t = run.t
          \/ run.phase = "over" /\ run.cr # "ok" /\ ev.r = run.cr
     ELSE /\ run.phase = IF View \/ run.fr # "ok" THEN "ran" ELSE "over"
          /\ ev.r = IF run.fr # "ok" \/ View THEN run.fr ELSE run.cr
          /\ \A t \in DOMAIN txn : txn[t].st # "open" \/ t = held
          /\ run.called = IF run.phase = "over" THEN Due ELSE {}
Done(ev) == DoneOk(ev) /\ run' = None /\ held' = (IF IsTry THEN IF ev.r = "panic" THEN run.t ELSE ev.t ELSE held) /\ UNCHANGED <<txn, kept>>
\* the caller begins, commits or discards the transaction it holds
Hold(ev) == ~Busy /\ ev.t \notin DOMAIN txn /\ held' = ev.t /\ txn' = (ev.t :> [upd |-> TRUE, st |-> "open", w |-> <<>>]) @@ txn /\ UNCHANGED <<kept, run>>
Release(ev) == /\ ~Busy /\ held # 0 /\ ev.t = held /\ held' = 0
               /\ LET live == txn[held].st = "open" IN
                  /\ kept' = IF ev.r = "ok" THEN kept \o txn[held].w ELSE kept
                  /\ (ev.r = "ok" => live)
                  /\ txn' = [txn EXCEPT ![held].st = IF ev.r = "ok" THEN "ok" ELSE "gone"]
               /\ UNCHANGED run
Content(ev) == ~Busy /\ ev.steps = kept /\ UNCHANGED hvars
=============================================================================
