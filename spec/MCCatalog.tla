----------------------------- MODULE MCCatalog -----------------------------
(* Bounded instance of Catalog.tla: its laws, and generation of programs.     *)
EXTENDS Catalog, Json
CONSTANTS Ids, Ds, Depth, MaxOps
VARIABLES hist, n, gone   \* gone: jobs taken from the queue "d", oldest first; enq: put in
mvars == <<cvars, hist, n, gone>>
Emit == Depth > 0
D1(d) == <<0, 0, d>>
Some(S) == IF Emit THEN {RandomElement(S)} ELSE S
H(x) == hist' = IF Emit THEN Append(hist, x) ELSE hist
MInit == CInit /\ hist = <<>> /\ n = 0 /\ gone = [st |-> <<<<>>, <<>>>>, cur |-> <<<<>>, <<>>>>]
Rs == {"ok", "dbexists", "nodb", "collexists", "nocoll", "none", "nojob", "notfound"}
B(e, db, id, r) == [e |-> e, db |-> D1(db), id |-> D1(id), r |-> r]
\* ghost: what was put into and what was taken out of the queue
Ghost(ev) == gone' = [gone EXCEPT !.cur = IF ev.e = "enq" /\ ev.q = "d" THEN <<Append(@[1], ev.d), @[2]>>
                                          ELSE IF ev.e = "deq" /\ ev.q = "d" /\ ev.r = "ok" THEN <<@[1], Append(@[2], ev.d)>> ELSE @]
Act(ev) == Op(ev) /\ Ghost(ev)
Gen == {"createdb","updatedb","dropdb","getdb","listdbs","createcoll","updatecoll","dropcoll","getcoll","listcolls",
        "gengid","gengids","gensver","finishboot","getdiff","setdiff","enq","deq","at","upd","qall","addhist","gethist","allhist","lasthist",
        "rostart","roboth","roremove","roget"}
\* generation: the driver computes the arguments it is not given; every operation is possible, so no outcome is needed
GenOp == \E e \in Some(Gen), db \in Some(Ids), id \in Some(Ids), d \in Some(Ds), q \in Some({"d", "a"}), i \in Some(-2..2) :
            /\ H([e |-> e, db |-> db, id |-> id, d |-> d, q |-> q, i |-> i]) /\ UNCHANGED <<cvars, gone>>
ChkOp == \E db \in Ids, id \in Ids, d \in Ds, r \in Rs :
   \/ \E e \in {"createdb", "updatedb", "createcoll", "updatecoll"} : Act(B(e, db, id, r) @@ [d |-> d])
   \/ Act(B("dropdb", db, id, r))
   \/ \E a \in BOOLEAN : Act(B("dropcoll", db, id, r) @@ [auto |-> a])
   \/ Act(B("gengid", db, id, r) @@ [v |-> Add64(Val(cur.gid), One64)])
   \/ Act(B("enq", db, id, r) @@ [q |-> "d", d |-> d])
   \/ Act(B("deq", db, id, r) @@ [q |-> "d", d |-> IF cur.q["d"] = <<>> THEN d ELSE Head(cur.q["d"])])
   \/ Act(B("addhist", db, id, r) @@ [d |-> d])
MNext == IF Emit /\ Len(hist) >= Depth THEN PrintT("BEH " \o ToJson(hist)) /\ hist' = <<>> /\ CReset /\ UNCHANGED <<n, gone>>
  ELSE /\ n < MaxOps /\ n' = IF Emit THEN n ELSE n + 1
       /\ IF mode = "none"
          THEN \/ \E u \in Some({TRUE, FALSE, TRUE}) : Begin(u) /\ H([e |-> "begin", upd |-> u]) /\ gone' = [gone EXCEPT !.cur = @] /\ gone.cur = gone.st
               \/ \E db \in Some(Ids), id \in Some(Ids), k \in Some({1, 3}) :
                    /\ LET o == IF <<D1(db), D1(id)>> \in DOMAIN st.seqs THEN st.seqs[<<D1(db), D1(id)>>] ELSE Zero64 IN DidSeq([db |-> D1(db), id |-> D1(id), r |-> "ok", n |-> D1(k), v |-> Add64(o, One64)])
                    /\ H([e |-> "seq", db |-> db, id |-> id, i |-> k]) /\ UNCHANGED gone
          ELSE \/ IF Emit THEN GenOp ELSE ChkOp /\ hist' = hist
               \/ (Emit => RandomElement(1..5) = 1) /\ Commit([r |-> "ok"]) /\ H([e |-> "commit"]) /\ gone' = [gone EXCEPT !.st = gone.cur]
               \/ (Emit => RandomElement(1..12) = 1) /\ Discard /\ H([e |-> "discard"]) /\ gone' = [gone EXCEPT !.cur = gone.st]
MSpec == MInit /\ [][MNext]_mvars
NoHist == <<cvars, n, gone>>
\* ---- laws
Owned(S) == \A k \in DOMAIN S.colls : k[1] \in DOMAIN S.dbs
Consistent == Owned(st) /\ Owned(cur)
Fifo == gone.st[1] = gone.st[2] \o st.q["d"] /\ gone.cur[1] = gone.cur[2] \o cur.q["d"]
Monotone == [][Le64(Val(st.gid), Val(st'.gid))]_mvars
OnlyCommits == [][st' # st => (mode = "rw" /\ mode' = "none" /\ st' = cur) \/ (mode = "none" /\ [st' EXCEPT !.seqs = st.seqs] = st)]_mvars
\* an operation changes what it is about and nothing else
Parts(S) == {f \in DOMAIN S : TRUE}
Frame == [][mode = mode' /\ mode # "none" => Cardinality({f \in DOMAIN cur : cur'[f] # cur[f]}) <= 1
                                              \/ (cur'.dbs # cur.dbs /\ \A f \in DOMAIN cur \ {"dbs", "colls", "seqs"} : cur'[f] = cur[f])
                                              \/ (cur'.colls # cur.colls /\ \A f \in DOMAIN cur \ {"colls", "seqs"} : cur'[f] = cur[f])]_mvars
=============================================================================
