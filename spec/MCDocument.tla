----------------------------- MODULE MCDocument -----------------------------
(* Bounded instance of Document.tla: exhaustive checking that committed       *)
(* transactions are as if executed alone at their commit, under the schema    *)
(* they began with; and generation of programs replayed into the code.        *)
EXTENDS Document, Json
CONSTANTS Cs, Ds, Vs, Txns, MaxOps, Depth, Deep
VARIABLES hist, n, log   \* log: t |-> operations with their results
mvars == <<dvars, hist, n, log>>
Emit == Depth > 0
D1(d) == <<0, 0, d>>
MInit == /\ docs = Empty /\ mod = Empty /\ clock = 0 /\ cache = Cs /\ chg = <<>> /\ reach = 0 /\ txns = Empty /\ issued = {}
         /\ hist = <<>> /\ n = 0 /\ log = Empty
H(x) == hist' = IF Emit THEN Append(hist, x) ELSE hist
Rec(t, ev) == log' = IF Emit \/ t = 0 THEN log ELSE Put(log, t, Append(log[t], ev))
Ids == {0} \cup {t \in DOMAIN txns : Open(t)}
Act(ev, k) == DOp(ev) /\ Rec(ev.t, ev) /\ H([e |-> ev.e, t |-> ev.t, c |-> ev.c, k |-> k])
Base(e, t, c, r) == [e |-> e, t |-> t, c |-> c, r |-> r, may |-> "none", conc |-> FALSE]
Rs == {"ok", "nocoll", "notfound", "exists", "err"}
Look(view, k) == IF k \in DOMAIN view THEN view[k] ELSE Gone
Some(S) == IF Emit THEN {RandomElement(S)} ELSE S   \* generation draws, checking explores
Ops == \E t \in Some(Ids), c \in Some(Cs), d \in Some(Ds), r \in Rs :
  LET view == View(t)  k == <<c, D1(d)>>  B(e) == Base(e, t, c, r) @@ [d |-> D1(d)]  has == k \in DOMAIN view  ks == In(view, c) IN
  \/ \E v \in Vs : \/ Act(B("insert") @@ [v |-> v], d)
                   \/ Act(B("managed") @@ [v |-> v], d)
                   \/ Act(B("update") @@ [v |-> v, exists |-> has], d)
                   \/ Act(B("upsert") @@ [v |-> v, isnew |-> ~has], d)
  \/ Act(B("delete"), d)
  \/ Act(B("get") @@ [v |-> Look(view, k)], d)
  \/ Deep /\ (Emit => d < 3) /\ Act(Base("delall", t, c, r) @@ [n |-> Cardinality(ks)], 0)
  \/ Emit /\ \/ Act(Base("count", t, c, r) @@ [n |-> Cardinality(ks)], 0)
             \/ Act(Base("getmany", t, c, r) @@ [ds |-> <<D1(d)>>, vs |-> <<Look(view, k)>>], d)
             \/ r = (IF c \in Colls(t) THEN "ok" ELSE "nocoll") /\ UNCHANGED <<dvars, log>> /\ \E e \in {"all", "range"} : H([e |-> e, t |-> t, c |-> c, k |-> 0])
MNext == IF Emit /\ Len(hist) >= Depth THEN PrintT("BEH " \o ToJson(hist)) /\ hist' = <<>> /\ DReset(Cs) /\ UNCHANGED <<n, log>>
  ELSE /\ n < MaxOps /\ n' = IF Emit THEN n ELSE n + 1
       /\ \/ Ops
          \/ \E t \in Txns, u \in BOOLEAN : (\A s \in Txns : s < t => s \in DOMAIN txns) /\ Begin(t, u) /\ H([e |-> "begin", t |-> t, upd |-> u]) /\ log' = Put(log, t, <<>>)
          \/ \E t \in Ids \ {0} : \/ Discard(t, [cancels |-> 0]) /\ H([e |-> "discard", t |-> t]) /\ UNCHANGED log
                                  \/ \E r \in {"ok", "conflict", "ddlconflict", "err"} : Commit(t, [r |-> r, may |-> "after", reg |-> 0, cancels |-> 0]) /\ H([e |-> "commit", t |-> t]) /\ UNCHANGED log
          \/ \E T \in Some(SUBSET Cs), C \in Some({x \in SUBSET Cs : Emit => Cardinality(x) + 1 >= Cardinality(Cs)}), f \in Some(BOOLEAN) : /\ (f => Emit) /\ (C # cache => (cache \ C) \cup (C \ cache) \subseteq T)
                 /\ Schema([r |-> "ok", touched |-> IF T = {} THEN <<>> ELSE CHOOSE s \in [1..Cardinality(T) -> T] : Set(s) = T,
                            colls |-> IF C = {} THEN <<>> ELSE CHOOSE s \in [1..Cardinality(C) -> C] : Set(s) = C, full |-> f])
                 /\ H([e |-> "schema", t |-> 0, touched |-> T, colls |-> C, full |-> f]) /\ UNCHANGED log
MSpec == MInit /\ [][MNext]_mvars
NoHist == <<dvars, n, log>>

\* ---- a transaction that commits did what it would have done alone, at that moment
RECURSIVE Replay(_, _)
Replay(m, ops) == IF ops = <<>> THEN TRUE ELSE
  LET o == Head(ops)  k == <<o.c, o.d>>  has == k \in DOMAIN m IN
  /\ CASE o.e = "insert" -> ~has
       [] o.e = "managed" -> (o.r = "exists") = has
       [] o.e = "update" -> o.exists = has
       [] o.e = "upsert" -> o.isnew = ~has
       [] o.e = "get" -> o.r = (IF has THEN "ok" ELSE "notfound") /\ (has => o.v = m[k])
       [] OTHER -> TRUE
  /\ Replay(CASE o.r # "ok" \/ o.e = "get" \/ (o.e = "update" /\ ~has) -> m
              [] o.e = "delete" -> [x \in DOMAIN m \ {k} |-> m[x]]
              [] OTHER -> Put(m, k, o.v), Tail(ops))
Commits(t) == Open(t) /\ txns'[t].st = "committed"
Serial == [][\A t \in DOMAIN txns : Commits(t) /\ txns[t].w # Empty /\ ~Deep /\ ~Emit =>
               Replay(docs, SelectSeq(log[t], LAMBDA o : o.r \in {"ok", "exists", "notfound"}))]_mvars
AllOrNothing == [][\A t \in DOMAIN txns : (Commits(t) => docs' = Apply(docs, txns[t].w)) /\ (Open(t) /\ txns'[t].st = "aborted" => docs' = docs)]_mvars
SchemaKept == [][\A t \in DOMAIN txns : Commits(t) => \A c \in txns[t].used : \A j \in (txns[t].ver + 1)..Len(chg) : c \notin chg[j]]_mvars
Isolated == \A t \in DOMAIN txns : Open(t) => \A k \in DOMAIN txns[t].w : k[1] \in txns[t].used
\* an id that was handed out never comes back
FreshIds == [][\A k \in issued' \ issued : k \notin DOMAIN docs]_mvars
=============================================================================
