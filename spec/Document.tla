------------------------------ MODULE Document ------------------------------
(***************************************************************************)
(* Document collections over a transactional store: a map from (collection, *)
(* document id) to document, transactions with snapshots, and schema        *)
(* changes that transactions are checked against when they commit.          *)
(* DOp(ev) is enabled exactly when the recorded outcome of ev is allowed.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES
  docs,    \* committed: <<collection, id>> |-> document
  mod,     \* <<collection, id>> |-> clock of the last commit that wrote it
  clock,
  cache,   \* collections in the current schema
  chg,     \* per schema version, the collections it touched
  reach,   \* versions up to here are no longer recorded
  txns,
  issued   \* ids returned by inserts that succeeded
dvars == <<docs, mod, clock, cache, chg, reach, txns, issued>>
Empty == <<>>
DLt(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i-1) : a[j] = b[j]   \* ids as limbs (Int64.tla)
Gone == "-gone-"
Put(f, k, x) == (k :> x) @@ f
Apply(m, w) == [k \in ((DOMAIN m \cup {x \in DOMAIN w : w[x] # Gone}) \ {x \in DOMAIN w : w[x] = Gone}) |-> IF k \in DOMAIN w THEN w[k] ELSE m[k]]
Set(s) == {s[i] : i \in 1..Len(s)}
MaxDiffs == 100

DInit0 == /\ docs = Empty /\ mod = Empty /\ clock = 0 /\ cache = {} /\ chg = <<>> /\ reach = 0 /\ txns = Empty /\ issued = {}
DReset(colls) == /\ docs' = Empty /\ mod' = Empty /\ clock' = 0 /\ cache' = colls /\ chg' = <<>> /\ reach' = 0 /\ txns' = Empty /\ issued' = {}

View(t) == IF t = 0 THEN docs ELSE Apply(txns[t].snap, txns[t].w)
Colls(t) == IF t = 0 THEN cache ELSE txns[t].cache
Open(t) == t \in DOMAIN txns /\ txns[t].st = "open"
In(view, c) == {k \in DOMAIN view : k[1] = c}
Writes(w) == /\ docs' = Apply(docs, w) /\ clock' = clock + 1
             /\ mod' = [k \in DOMAIN w |-> clock + 1] @@ mod
Changed(t, ks) == {k \in ks : k \in DOMAIN mod /\ mod[k] > txns[t].start}

Begin(t, upd) == /\ t \notin DOMAIN txns
  /\ txns' = Put(txns, t, [st |-> "open", upd |-> upd, start |-> clock, snap |-> docs, cache |-> cache, ver |-> Len(chg),
                           w |-> Empty, rd |-> {}, may |-> {}, used |-> {}, ins |-> {}])
  /\ UNCHANGED <<docs, mod, clock, cache, chg, reach, issued>>

\* operation ev of transaction t (0: its own) did w, having depended on the items rd and looked at may
Done(t, ev, w, rd, may, ins) ==
  /\ UNCHANGED <<cache, chg, reach>>
  /\ issued' = issued \cup ins
  /\ IF t = 0 THEN /\ UNCHANGED txns
                   /\ IF w = Empty THEN UNCHANGED <<docs, mod, clock>> ELSE Writes(w)
     ELSE /\ UNCHANGED <<docs, mod, clock>>
          /\ txns' = [txns EXCEPT ![t] = [@ EXCEPT !.w = w @@ @, !.rd = @ \cup {k \in rd : k \notin DOMAIN txns[t].w},
                                                   !.may = @ \cup rd \cup may, !.used = @ \cup {ev.c}, !.ins = @ \cup ins]]
\* it failed: without effect on the documents
Failed(t, ev, rd, may) == Done(t, ev, Empty, rd, may, {})

\* a write operation with its effect w: errors that may be reported instead of ok
WriteOp(t, ev, w, rd, may, ins) ==
  CASE ev.r = "ok" -> (IF w = Empty \/ t = 0 THEN TRUE ELSE txns[t].upd) /\ Done(t, ev, w, rd, may, ins)
    [] ev.r = "err" -> \/ ev.may # "none" /\ Failed(t, ev, {}, rd)
                       \/ ev.may = "after" /\ t = 0 /\ Done(t, ev, w, {}, rd, {})
                       \/ t # 0 /\ ~txns[t].upd /\ w # Empty /\ Failed(t, ev, rd, {})
    [] ev.r = "conflict" -> t = 0 /\ ev.conc /\ UNCHANGED dvars
    [] OTHER -> FALSE
ReadErr(t, ev) == ev.r = "err" /\ ev.may # "none" /\ UNCHANGED dvars

Known == {"insert", "managed", "update", "upsert", "delete", "delall", "get", "getmany", "range", "all", "count"}
DOp(ev) == LET t == ev.t  c == ev.c IN
  /\ ev.e \in Known /\ (t = 0 \/ Open(t))
  /\ IF "bad" \in DOMAIN ev /\ ev.bad THEN ev.r = "err" /\ UNCHANGED dvars   \* not a document
     ELSE IF c \notin Colls(t) THEN ev.r = "nocoll" /\ UNCHANGED dvars
     ELSE \E view \in {View(t)} :
       CASE ev.e = "insert" ->
              IF ev.r = "ok"
              THEN LET k == <<c, ev.d>> IN
                   /\ k \notin DOMAIN view /\ k \notin issued
                   /\ WriteOp(t, ev, k :> ev.v, {k}, In(view, c), {k})   \* it may have looked at ids taken before
              ELSE \/ WriteOp(t, [ev EXCEPT !.may = IF @ = "after" THEN "before" ELSE @], 0 :> 0, {}, {}, {})
                   \/ ev.r = "err" /\ ev.may = "after" /\ t = 0 /\ <<c, ev.d>> \notin DOMAIN view /\ Done(t, ev, <<c, ev.d>> :> ev.v, {}, {}, {})
         [] ev.e \in {"managed", "update", "upsert"} ->
              LET k == <<c, ev.d>>  has == k \in DOMAIN view
                  w == IF ev.e = "update" /\ ~has THEN Empty ELSE k :> ev.v IN
              IF ev.e = "managed" /\ has THEN \/ ev.r = "exists" /\ Failed(t, ev, {k}, {})
                                              \/ ReadErr(t, ev) \/ (ev.conc /\ ev.r = "conflict" /\ UNCHANGED dvars)
              ELSE \/ /\ ev.r = "ok" => CASE ev.e = "update" -> ev.exists = has [] ev.e = "upsert" -> ev.isnew = ~has [] OTHER -> TRUE
                      /\ WriteOp(t, ev, w, {k}, {}, {})
                   \/ ev.conc /\ ev.e = "managed" /\ ev.r = "exists" /\ UNCHANGED dvars
         [] ev.e = "delete" -> WriteOp(t, ev, <<c, ev.d>> :> Gone, {}, {}, {})
         [] ev.e = "delall" -> /\ ev.r = "ok" => ev.n = Cardinality(In(view, c))
                               /\ WriteOp(t, ev, [k \in In(view, c) |-> Gone], In(view, c), {}, {})
         [] ev.e = "get" -> LET k == <<c, ev.d>> IN
              \/ ReadErr(t, ev)
              \/ /\ IF k \in DOMAIN view THEN ev.r = "ok" /\ ev.v = view[k] ELSE ev.r = "notfound"
                 /\ Failed(t, ev, {k}, {})
         [] ev.e = "getmany" -> LET ks == {<<c, ev.ds[i]>> : i \in 1..Len(ev.ds)} IN
              \/ ReadErr(t, ev)
              \/ /\ IF ks \subseteq DOMAIN view THEN ev.r = "ok" /\ ev.vs = [i \in 1..Len(ev.ds) |-> view[<<c, ev.ds[i]>>]] ELSE ev.r = "notfound"
                 /\ Failed(t, ev, IF ev.r = "ok" THEN ks ELSE {}, ks)
         [] ev.e = "range" ->
              \/ ReadErr(t, ev)
              \/ LET ks == In(view, c) IN
                 /\ IF ks = {} THEN ev.r \in {"ok", "notfound"}
                    ELSE /\ ev.r = "ok" /\ <<c, ev.min>> \in ks /\ <<c, ev.max>> \in ks
                         /\ \A k \in ks : ~DLt(k[2], ev.min) /\ ~DLt(ev.max, k[2])
                 /\ Failed(t, ev, {}, ks)
         [] ev.e = "all" ->
              \/ ReadErr(t, ev)
              \/ LET ks == In(view, c) IN
                 /\ ev.r = "ok" /\ Len(ev.vs) = Cardinality(ks)
                 /\ \A v \in Set(ev.vs) : Cardinality({i \in 1..Len(ev.vs) : ev.vs[i] = v}) = Cardinality({k \in ks : view[k] = v})
                 /\ Failed(t, ev, ks, {})
         [] ev.e = "count" ->
              \/ ReadErr(t, ev)
              \/ ev.r = "ok" /\ ev.n = Cardinality(In(view, c)) /\ Failed(t, ev, In(view, c), {})

Finish(t, st) == [txns EXCEPT ![t] = [@ EXCEPT !.st = st, !.snap = Empty, !.w = Empty, !.rd = {}, !.may = {}, !.ins = {}]]
\* the schema changed under the transaction
Touched(t) == txns[t].used \cap UNION {chg[j] : j \in (txns[t].ver + 1)..Len(chg)}
Forgotten(t) == txns[t].ver < reach \/ Len(chg) - txns[t].ver > MaxDiffs
\* commit with result ev.r; ev.reg callbacks were registered for a failed commit and ev.cancels ran
Commit(t, ev) == /\ Open(t) /\ UNCHANGED <<cache, chg, reach>>
  /\ LET x == txns[t]
         Abort == /\ txns' = Finish(t, "aborted") /\ issued' = issued \ x.ins /\ UNCHANGED <<docs, mod, clock>>
         Keep == /\ IF x.w = Empty THEN TRUE ELSE Changed(t, x.rd) = {}
                 /\ txns' = Finish(t, "committed") /\ IF x.w = Empty THEN UNCHANGED <<docs, mod, clock>> ELSE Writes(x.w)
     IN /\ ev.cancels = IF ev.r = "ok" THEN 0 ELSE ev.reg
        /\ IF ~x.upd THEN (ev.r = "ok" \/ (ev.r = "err" /\ ev.may # "none")) /\ Abort
           ELSE IF Touched(t) # {} THEN ev.r = "ddlconflict" /\ Abort
           ELSE CASE ev.r = "ok" -> Keep /\ UNCHANGED issued
                  [] ev.r = "ddlconflict" -> Forgotten(t) /\ Abort
                  [] ev.r = "conflict" -> x.w # Empty /\ Changed(t, x.may) # {} /\ Abort
                  [] ev.r = "err" -> \/ ev.may # "none" /\ Abort
                                     \/ ev.may = "after" /\ Keep /\ issued' = issued \ x.ins
                  [] OTHER -> FALSE
\* once rejected it stays rejected, and nothing is called back twice
Recommit(t, ev) == /\ t \in DOMAIN txns /\ txns[t].st = "aborted" /\ ev.r = "ddlconflict" /\ ev.cancels = ev.reg
                   /\ UNCHANGED dvars
Discard(t, ev) == Open(t) /\ ev.cancels = 0 /\ txns' = Finish(t, "aborted") /\ issued' = issued \ txns[t].ins
                  /\ UNCHANGED <<docs, mod, clock, cache, chg, reach>>

\* a new schema version (or, full, the schema as a whole at that version)
Schema(ev) == /\ ev.r = "ok" /\ cache' = Set(ev.colls) /\ chg' = Append(chg, Set(ev.touched)) /\ reach' = IF ev.full THEN Len(chg) + 1 ELSE reach
              /\ UNCHANGED <<docs, mod, clock, txns, issued>>
OpenColl(ev) == ev.r = (IF ev.c \in cache THEN "ok" ELSE "nocoll") /\ UNCHANGED dvars
Restart == /\ txns' = Empty /\ chg' = <<>> /\ reach' = 0 /\ UNCHANGED <<docs, mod, clock, cache, issued>>
=============================================================================
