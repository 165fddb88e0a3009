------------------------------- MODULE Catalog -------------------------------
(***************************************************************************)
(* The catalogue of the document database: databases with their collections  *)
(* and document-id sequences, global id, schema version and the recorded     *)
(* changes, bootstrap version, two job queues, job history and the           *)
(* reorganisation handles of jobs; read and changed in transactions.         *)
(* Step(S, ev) is the set of catalogues the recorded outcome of ev allows.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Int64
VARIABLES
  st,   \* committed
  cur,  \* as the open transaction sees it
  mode  \* "none", "ro", "rw": the open transaction
cvars == <<st, cur, mode>>
Null == <<>>   \* the empty function
Put(f, k, x) == (k :> x) @@ f
Del(f, ks) == [k \in DOMAIN f \ ks |-> f[k]]
Init0 == [dbs |-> Null, colls |-> Null, seqs |-> Null, gid |-> Null, sver |-> Null, boot |-> Null, diffs |-> Null,
          q |-> [x \in {"d", "a"} |-> <<>>], hist |-> Null, ro |-> Null]
U == "u"   \* the only key of a cell that may be unset
Val(f) == IF f = Null THEN Zero64 ELSE f[U]
Range(s) == {s[i] : i \in 1..Len(s)}
InDb(f, d) == {k \in DOMAIN f : k[1] = d}

\* the listing l ([id, d] records) names every element of f exactly once
Lists(l, f) == /\ Len(l) = Cardinality(DOMAIN f)
               /\ {x.id : x \in Range(l)} = DOMAIN f
               /\ \A x \in Range(l) : f[x.id] = x.d
\* job digests by descending id
Newest(l, f, n) == /\ Len(l) = (IF n < 0 THEN 0 ELSE IF n < Cardinality(DOMAIN f) THEN n ELSE Cardinality(DOMAIN f))
                   /\ \A i \in 1..Len(l) : l[i].id \in DOMAIN f /\ l[i].d = f[l[i].id]
                   /\ \A i \in 1..(Len(l) - 1) : Lt64(l[i + 1].id, l[i].id)
                   /\ \A k \in DOMAIN f \ {x.id : x \in Range(l)} : \A x \in Range(l) : Lt64(k, x.id)
Rev(l) == [i \in 1..Len(l) |-> l[Len(l) + 1 - i]]
Pos(l, i) == IF i >= 0 THEN i + 1 ELSE Len(l) + i + 1

Known == {"createdb","updatedb","dropdb","getdb","listdbs","createcoll","updatecoll","dropcoll","getcoll","listcolls",
          "gid","gengid","gengids","sver","gensver","boot","finishboot","getdiff","setdiff",
          "enq","deq","at","upd","qlen","qall","addhist","gethist","allhist","lasthist","rostart","roboth","roremove","roget"}
\* {new catalogue} when the outcome is right, {} when it is not
If(b, S) == IF b THEN {S} ELSE {}
Step(S, ev) ==
  LET e == ev.e
      nodb == ev.db \notin DOMAIN S.dbs
      ck == <<ev.db, ev.id>>
      nocoll == ck \notin DOMAIN S.colls
  IN
  CASE e = "createdb" -> IF ev.db \in DOMAIN S.dbs THEN If(ev.r = "dbexists", S) ELSE If(ev.r = "ok", [S EXCEPT !.dbs = Put(@, ev.db, ev.d)])
    [] e = "updatedb" -> IF nodb THEN If(ev.r = "nodb", S) ELSE If(ev.r = "ok", [S EXCEPT !.dbs = Put(@, ev.db, ev.d)])
    [] e = "dropdb" -> IF nodb THEN If(ev.r = "nodb", S)
                       ELSE If(ev.r = "ok", [S EXCEPT !.dbs = Del(@, {ev.db}), !.colls = Del(@, InDb(@, ev.db)), !.seqs = Del(@, InDb(@, ev.db))])
    [] e = "getdb" -> IF nodb THEN If(ev.r = "nodb", S) ELSE If(ev.r = "ok" /\ ev.d = S.dbs[ev.db], S)
    [] e = "listdbs" -> If(ev.r = "ok" /\ Lists(ev.l, S.dbs), S)
    [] e = "createcoll" -> IF nodb THEN If(ev.r = "nodb", S)
                           ELSE IF ~nocoll THEN If(ev.r = "collexists", S)
                           ELSE If(ev.r = "ok", [S EXCEPT !.colls = Put(@, ck, ev.d)])
    [] e = "updatecoll" -> IF nodb THEN If(ev.r = "nodb", S)
                           ELSE IF nocoll THEN If(ev.r = "nocoll", S)
                           ELSE If(ev.r = "ok", [S EXCEPT !.colls = Put(@, ck, ev.d)])
    [] e = "dropcoll" -> IF nodb THEN If(ev.r = "nodb", S)
                         ELSE IF nocoll THEN If(ev.r = "nocoll", S)
                         ELSE If(ev.r = "ok", [S EXCEPT !.colls = Del(@, {ck}), !.seqs = IF ev.auto THEN Del(@, {ck}) ELSE @])
    [] e = "getcoll" -> IF nodb THEN If(ev.r = "nodb", S)
                        ELSE IF nocoll THEN If(ev.r = "nocoll", S)
                        ELSE If(ev.r = "ok" /\ ev.d = S.colls[ck], S)
    [] e = "listcolls" -> IF nodb THEN If(ev.r = "nodb", S)
                          ELSE If(ev.r = "ok" /\ Lists(ev.l, [i \in {k[2] : k \in InDb(S.colls, ev.db)} |-> S.colls[<<ev.db, i>>]]), S)
    [] e = "gid" -> IF S.gid = Null THEN If(ev.r = "notfound" \/ (ev.r = "ok" /\ ev.v = Zero64), S) ELSE If(ev.r = "ok" /\ ev.v = Val(S.gid), S)
    [] e = "gengid" -> LET v == Add64(Val(S.gid), One64) IN If(ev.r = "ok" /\ ev.v = v, [S EXCEPT !.gid = Put(@, U, v)])
    [] e = "gengids" -> LET v == Add64(Val(S.gid), ev.n) IN If(ev.r = "ok" /\ ev.lo = Val(S.gid) /\ ev.hi = v, [S EXCEPT !.gid = Put(@, U, v)])
    [] e = "sver" -> If(ev.r = "ok" /\ ev.v = Val(S.sver), S)
    [] e = "gensver" -> LET v == Add64(Val(S.sver), One64) IN If(ev.r = "ok" /\ ev.v = v, [S EXCEPT !.sver = Put(@, U, v)])
    [] e = "boot" -> If(ev.r = "ok" /\ ev.v = Val(S.boot), S)
    [] e = "finishboot" -> If(ev.r = "ok", [S EXCEPT !.boot = Put(@, U, ev.v)])
    [] e = "getdiff" -> IF ev.id \in DOMAIN S.diffs THEN If(ev.r = "ok" /\ ev.d = S.diffs[ev.id], S) ELSE If(ev.r = "none", S)
    [] e = "setdiff" -> If(ev.r = "ok", [S EXCEPT !.diffs = Put(@, ev.id, ev.d)])
    [] e = "enq" -> If(ev.r = "ok", [S EXCEPT !.q[ev.q] = Append(@, ev.d)])
    [] e = "deq" -> IF S.q[ev.q] = <<>> THEN If(ev.r = "none", S) ELSE If(ev.r = "ok" /\ ev.d = Head(S.q[ev.q]), [S EXCEPT !.q[ev.q] = Tail(@)])
    [] e \in {"at", "upd"} -> LET p == Pos(S.q[ev.q], ev.i)  in == p >= 1 /\ p <= Len(S.q[ev.q]) IN
         IF e = "at" THEN IF in THEN If(ev.r = "ok" /\ ev.d = S.q[ev.q][p], S) ELSE If(ev.r = "none", S)
         ELSE IF in THEN If(ev.r = "ok", [S EXCEPT !.q[ev.q][p] = ev.d]) ELSE If(ev.r = "nojob", S)
    [] e = "qlen" -> If(ev.r = "ok" /\ ev.c = Len(S.q[ev.q]), S)
    [] e = "qall" -> If(ev.r = "ok" /\ ev.ds \in {S.q[ev.q], Rev(S.q[ev.q])}, S)   \* the direction of the listing is not promised
    [] e = "addhist" -> If(ev.r = "ok", [S EXCEPT !.hist = Put(@, ev.id, ev.d)])
    [] e = "gethist" -> IF ev.id \in DOMAIN S.hist THEN If(ev.r = "ok" /\ ev.d = S.hist[ev.id], S) ELSE If(ev.r = "none", S)
    [] e = "allhist" -> If(ev.r = "ok" /\ Lists(ev.l, S.hist), S)
    [] e = "lasthist" -> If(ev.r = "ok" /\ Newest(ev.l, S.hist, ev.c), S)
    [] e = "rostart" -> If(ev.r = "ok", [S EXCEPT !.ro = Put(@, <<ev.id, "s">>, ev.v)])
    [] e = "roboth" -> If(ev.r = "ok", [S EXCEPT !.ro = Put(Put(@, <<ev.id, "s">>, ev.v), <<ev.id, "e">>, ev.v2)])
    [] e = "roremove" -> If(ev.r = "ok", [S EXCEPT !.ro = Del(@, {<<ev.id, "s">>, <<ev.id, "e">>})])
    [] e = "roget" -> IF {<<ev.id, "s">>, <<ev.id, "e">>} \subseteq DOMAIN S.ro
                      THEN If(ev.r = "ok" /\ ev.v = S.ro[<<ev.id, "s">>] /\ ev.v2 = S.ro[<<ev.id, "e">>], S)
                      ELSE If(ev.r = "notfound", S)
    [] OTHER -> {}
Writes == {"createdb","updatedb","dropdb","createcoll","updatecoll","dropcoll","gengid","gengids","gensver","finishboot","setdiff",
           "enq","deq","upd","addhist","rostart","roboth","roremove"}

CInit == st = Init0 /\ cur = Init0 /\ mode = "none"
CReset == st' = Init0 /\ cur' = Init0 /\ mode' = "none"
Begin(upd) == mode = "none" /\ cur' = st /\ mode' = (IF upd THEN "rw" ELSE "ro") /\ UNCHANGED st
\* a write in a read-only transaction fails or is refused for the reason it would be otherwise, and changes nothing
Op(ev) == /\ ev.e \in Known /\ mode # "none" /\ UNCHANGED <<st, mode>>
          /\ IF mode = "ro" /\ ev.e \in Writes /\ ev.r = "err" THEN UNCHANGED cur
             ELSE \E S \in Step(cur, ev) : (mode = "ro" => S = cur) /\ cur' = S
Commit(ev) == /\ mode # "none" /\ ev.r = "ok" /\ mode' = "none"
              /\ st' = cur /\ UNCHANGED cur
Discard == mode # "none" /\ mode' = "none" /\ cur' = st /\ UNCHANGED st
Reopen(ev) == ev.r = "ok" /\ mode' = "none" /\ cur' = st /\ UNCHANGED st
\* a document-id sequence of its own: the first id is the one after what was leased before
DidSeq(ev) == LET k == <<ev.db, ev.id>>  old == IF k \in DOMAIN st.seqs THEN st.seqs[k] ELSE Zero64 IN
  /\ mode = "none" /\ ev.r = "ok" /\ ev.v = Add64(old, One64)
  /\ st' = [st EXCEPT !.seqs = Put(@, k, Add64(old, ev.n))] /\ cur' = st' /\ UNCHANGED mode
=============================================================================
