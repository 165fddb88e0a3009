----------------------------- MODULE CodecTrace -----------------------------
EXTENDS Codec, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Ev == Trace[l]
Is(e) == l <= Len(Trace) /\ Trace[l].e = e /\ l' = l + 1
RECURSIVE DivMod10(_, _, _)
\* long division of <<a, b, c>> (unsigned) by ten: <<quotient, remainder>>
DivMod10(u, i, r) == IF i > 3 THEN <<u, r>>
                     ELSE LET t == r * (IF i = 1 THEN 65536 ELSE B24) + u[i] IN DivMod10([u EXCEPT ![i] = t \div 10], i + 1, t % 10)
RECURSIVE Digits(_)
Digits(u) == LET q == DivMod10(u, 1, 0) IN (IF q[1] = Zero64 THEN <<>> ELSE Digits(q[1])) \o <<48 + q[2]>>
Neg(v) == LET c == (B24 - v[3]) % B24
              b == (B24 - v[2] - (IF v[3] # 0 THEN 1 ELSE 0)) % B24
              a == (65536 - v[1] - (IF v[3] # 0 \/ v[2] # 0 THEN 1 ELSE 0)) % 65536
          IN <<a, b, c>>
Human(v) == IF v[1] < 0 THEN <<45>> \o Digits(Neg(v)) ELSE Digits(v)

Strip(s, n) == SubSeq(s, n + 1, Len(s))
Suffix(s, t) == Len(t) <= Len(s) /\ Strip(s, Len(s) - Len(t)) = t
Whole == {"human", "binary"}              \* codecs that take the whole input
KeyDecoders == {"dockey", "indexname", "indexnamelegacy"}

RoundOK(ev) ==
  /\ HasPrefix(ev.out, ev.pre) /\ ev.keep
  /\ ev.r = "ok" /\ Eq(ev.c, ev.dv, ev.v)
  /\ ev.c \notin Whole \cup KeyDecoders => ev.rest = ev.junk
  /\ ev.c = "human" => Strip(ev.out, Len(ev.pre)) = Human(ev.v)

DecodeOK(ev) ==
  /\ ev.keep
  /\ \/ ev.r = "err"
     \/ ev.r = "ok" /\
        CASE ev.c \in {"varint", "uvarint"} ->
               Suffix(ev.in, ev.rest) /\ LET used == SubSeq(ev.in, 1, Len(ev.in) - Len(ev.rest)) IN
               IsVarint(used, IF ev.c = "varint" THEN ZBits(ev.v) ELSE UBits(ev.v))
          [] ev.c = "compactbytes" ->
               Suffix(ev.in, ev.v \o ev.rest) /\ LET used == SubSeq(ev.in, 1, Len(ev.in) - Len(ev.v \o ev.rest)) IN
               IsVarint(used, ZBits(I64(Len(ev.v))))
          [] ev.c \in Floats -> Suffix(ev.in, ev.rest) /\ Len(ev.in) = Len(ev.rest) + 8 /\ (ev.nan \/ FZero(ev.v) \/ ev.re \o ev.rest = ev.in)
          [] ev.c \in KeyDecoders \ {"dockey"} -> ev.in = ev.re
          [] ev.c = "dockey" -> HasPrefix(ev.in, ev.re)
          [] OTHER -> ev.re \o ev.rest = ev.in

Step ==
  CASE Ev.e = "order"  -> \A i \in 1..(Len(Ev.vs) - 1) : Ordered(Ev.c, Ev.vs[i], Ev.vs[i + 1], Ev.es[i], Ev.es[i + 1])
    [] Ev.e = "round"  -> RoundOK(Ev)
    [] Ev.e = "enclen" -> Ev.r = Ev.len
    [] Ev.e = "decode" -> DecodeOK(Ev)
    \* decimal and fixed-width numbers: w is the number the input spells, empty when it spells none
    [] Ev.e = "parse"  -> Ev.keep /\ IF Ev.w = <<>> THEN Ev.r = "err" ELSE Ev.r = "ok" /\ Ev.v = Ev.w
    [] Ev.e = "next"   -> Ev.r = NextOf(Ev.k) /\ Ev.keep
    [] Ev.e = "pnext"  -> Ev.keep /\ (IF AllMax(Ev.k, 255) THEN LexLt(Ev.k, Ev.r) ELSE Ev.r = PNext(Ev.k, 255) \/ Ev.r = PNextShort(Ev.k, 255))
    [] Ev.e = "ispoint" -> Ev.keep /\ Ev.r = (IsPoint(Ev.s, Ev.t, 255) \/ (Ev.t = Ev.snext))
    [] Ev.e = "cmp"    -> Ev.keep /\ Ev.r = (IF Ev.s = Ev.t THEN 0 ELSE IF LexLt(Ev.s, Ev.t) THEN -1 ELSE 1) /\ Ev.hp = HasPrefix(Ev.s, Ev.t)
    [] Ev.e = "clone"  -> Ev.r = Ev.k /\ Ev.indep
    [] Ev.e = "string" -> Ev.r = Ev.hex
    [] OTHER -> FALSE
TInit == l = 1
TNext == Is("reset") \/ (l <= Len(Trace) /\ Ev.e # "reset" /\ l' = l + 1 /\ Step)
TSpec == TInit /\ [][TNext]_l
Accepted == PrintT(<<"MATCHED", TLCGet("stats").diameter - 1, Len(Trace)>>)
=============================================================================
