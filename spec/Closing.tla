------------------------------- MODULE Closing -------------------------------
(***************************************************************************)
(* The end of the legacy document database, seen from outside: calls, what   *)
(* each does to the store (accesses and commits), what it answers, calls of   *)
(* Close, and the collections that names yield.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES docs,    \* what the commits have left in the store
          pend,    \* caller -> its call under way
          closing, \* callers of Close that wait
          begun,   \* Close has been called
          done,    \* a call of Close has returned
          objs,    \* name -> the collection it yields
          puts     \* names whose collection has its document
cvars == <<docs, pend, closing, begun, done, objs, puts>>
Idle(g) == g \notin DOMAIN pend
Range(f) == {f[x] : x \in DOMAIN f}

CInit == docs = <<>> /\ pend = <<>> /\ closing = {} /\ begun = FALSE /\ done = FALSE /\ objs = <<>> /\ puts = {}
CReset == docs' = <<>> /\ pend' = <<>> /\ closing' = {} /\ begun' = FALSE /\ done' = FALSE /\ objs' = <<>> /\ puts' = {}
\* another database on the same store
Boot == pend = <<>> /\ closing = {} /\ begun' = FALSE /\ done' = FALSE /\ objs' = <<>> /\ UNCHANGED <<docs, pend, closing, puts>>

Call(ev) == /\ Idle(ev.g)
            /\ pend' = (ev.g :> [op |-> ev.op, name |-> ev.name, bad |-> ev.bad, long |-> ev.long,
                                 late |-> done,        \* it comes after the end
                                 open |-> 0, own |-> FALSE, others |-> FALSE]) @@ pend
            /\ UNCHANGED <<docs, closing, begun, done, objs, puts>>

\* the store is used by a call: never after the end
Access(g, d) == /\ ~Idle(g) /\ ~done /\ pend[g].open + d >= 0
                /\ pend' = [pend EXCEPT ![g].open = @ + d]
                /\ UNCHANGED <<docs, closing, begun, done, objs, puts>>

Apply(w, f) == LET ks == {w[i][1] : i \in 1..Len(w)}
                   Val(k) == LET i == CHOOSE i \in 1..Len(w) : w[i][1] = k IN w[i][2]
                   gone == {k \in ks : Val(k) = "-"} IN
               [k \in (DOMAIN f \cup ks) \ gone |-> IF k \in ks THEN Val(k) ELSE f[k]]
Commit(g, w) == /\ ~Idle(g) /\ ~done
                /\ docs' = Apply(w, docs)
                /\ pend' = [h \in DOMAIN pend |-> IF h = g THEN [pend[h] EXCEPT !.own = TRUE] ELSE [pend[h] EXCEPT !.others = TRUE]]
                /\ UNCHANGED <<closing, begun, done, objs, puts>>

Closed(p) == begun /\ ~p.own                                 \* refused, and nothing was done
AnswerOk(p, ev) ==
  IF p.bad THEN ev.r = "bad" \/ (ev.r = "closed" /\ Closed(p))
  ELSE IF p.late THEN ev.r = "closed"                        \* after the end everything is refused
  ELSE IF ev.fault THEN ev.r = "err"
  ELSE CASE ev.r = "closed" -> Closed(p)
         [] ev.r = "ok" -> ev.wrote => p.own                 \* what is acknowledged is in the store
         [] ev.r = "err" -> p.long \/ p.others               \* too long to be stored, or somebody was faster
         [] OTHER -> FALSE
\* one collection for one name
Yields(p, ev) == IF p.op # "coll" \/ ev.r # "ok" THEN UNCHANGED objs
                 ELSE IF p.name \in DOMAIN objs THEN objs[p.name] = ev.obj /\ UNCHANGED objs
                 ELSE ev.obj \notin Range(objs) /\ objs' = (p.name :> ev.obj) @@ objs
Ret(g, ev) == /\ ~Idle(g) /\ pend[g].open = 0
              /\ AnswerOk(pend[g], ev)
              /\ Yields(pend[g], ev)
              /\ puts' = IF pend[g].op = "put" /\ ev.r = "ok" THEN puts \cup {pend[g].name} ELSE puts
              /\ pend' = [h \in DOMAIN pend \ {g} |-> pend[h]]
              /\ UNCHANGED <<docs, closing, begun, done>>

CloseCall(g) == g \notin closing /\ closing' = closing \cup {g} /\ begun' = TRUE /\ UNCHANGED <<docs, pend, done, objs, puts>>
CloseRetOk(g) == g \in closing /\ \A h \in DOMAIN pend : pend[h].open = 0
CloseRet(g) == CloseRetOk(g) /\ closing' = closing \ {g} /\ done' = TRUE /\ UNCHANGED <<docs, pend, begun, objs, puts>>

\* the store, when nobody uses it
Image(w) == /\ pend = <<>>
            /\ Len(w) = Cardinality(DOMAIN docs) /\ \A i \in 1..Len(w) : w[i][1] \in DOMAIN docs /\ docs[w[i][1]] = w[i][2]
            /\ UNCHANGED cvars
\* the document of the collection of a name
See(ev) == /\ IF ev.name \in puts THEN ev.r = "ok" /\ ev.v = ev.name /\ ev.n = 1 ELSE ev.r = "none"
           /\ UNCHANGED cvars
=============================================================================
