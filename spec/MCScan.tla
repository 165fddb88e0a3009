------------------------------- MODULE MCScan -------------------------------
(* Every population of a small key universe and every shape of scan: checks    *)
(* what ScanKeys promises, and emits each population with all its scans as a   *)
(* behaviour to replay.                                                         *)
EXTENDS KV, Json
CONSTANTS Universe, Emitting
VARIABLE pop
svars == <<kvars, pop>>

U5 == {<<1>>, <<1, 255>>, <<2>>, <<255>>, <<255, 255>>}
U6 == U5 \cup {<<1, 0>>}
Pfxs == {<<>>, <<1>>, <<1, 255>>, <<255>>, <<255, 255>>, <<3>>}
Offs == Universe \cup {<<0>>, <<1, 1>>, <<1, 255, 255>>, <<254>>, <<255, 0>>, <<255, 255, 255>>}
En(k) == [v |-> "61", tag |-> 0, exp |-> "none"]

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Shapes == [rev : BOOLEAN, prefix : Pfxs, hasoff : BOOLEAN, off : Offs, stop : 0..2]
NShapes == {s \in Shapes : ~s.hasoff => s.off = <<0>>}

ScanOps == [i \in 1..Len(SetToSeq(NShapes)) |-> [e |-> "scan", t |-> 0] @@ SetToSeq(NShapes)[i]]
SetOps == LET q == SetToSeq(pop) IN [i \in 1..Len(q) |-> [e |-> "set", t |-> 0, k |-> q[i], v |-> "61", meta |-> FALSE, tag |-> 0, ttl |-> "none"]]
DelOps == LET q == SetToSeq(Universe \ pop) IN [i \in 1..Len(q) |-> [e |-> "delete", t |-> 0, k |-> q[i]]]

SInit == /\ prov = "badger" /\ clock = 0 /\ mod = Empty /\ txns = Empty /\ wbs = Empty
         /\ pop \in SUBSET Universe
         /\ db = [k \in pop |-> En(k)]
SNext == Emitting /\ PrintT("BEH " \o ToJson(SetOps \o DelOps \o ScanOps)) /\ UNCHANGED svars
SSpec == SInit /\ [][SNext]_svars

ScanOK(s) ==
  LET ks == ScanKeys(db, s.rev, s.prefix, s.hasoff, s.off, s.stop)
      all == ScanKeys(db, s.rev, s.prefix, s.hasoff, s.off, 0)
      In(k) == k \in pop /\ HasPrefix(k, s.prefix) /\ (s.hasoff => IF s.rev THEN ~LexLt(s.off, k) ELSE ~LexLt(k, s.off))
  IN /\ \A i, j \in 1..Len(all) : i < j => IF s.rev THEN LexLt(all[j], all[i]) ELSE LexLt(all[i], all[j])
     /\ {all[i] : i \in 1..Len(all)} = {k \in Universe : In(k)}
     /\ IsPrefix(ks, all) /\ Len(ks) = IF s.stop = 0 \/ s.stop > Len(all) THEN Len(all) ELSE s.stop
     \* the two directions agree, and paging by "last key, exclusive" neither loses nor repeats
     /\ ~s.hasoff => all = Rev(ScanKeys(db, ~s.rev, s.prefix, FALSE, <<>>, 0))
     /\ ~s.rev /\ ks # <<>> => LET nx == ks[Len(ks)] \o <<0>> IN ks \o ScanKeys(db, FALSE, s.prefix, TRUE, nx, 0) = all
ScansOK == \A s \in NShapes : ScanOK(s)
=============================================================================
