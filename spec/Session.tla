------------------------------ MODULE Session ------------------------------
(***************************************************************************)
(* The protocol of one connection: streams of frames from a client, each   *)
(* stream one transaction (or one operation), which the server answers     *)
(* frame by frame, in order, however many frames are under way and         *)
(* whatever the other streams do.  A stream ends with a commit, a discard, *)
(* a frame that cannot be understood, or when the client ends it; a        *)
(* transaction is carried out only if its commit was asked for.            *)
(* Every action takes what was sent or seen and is enabled exactly when    *)
(* that is allowed.                                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC
VARIABLES
  asked,  \* stream |-> the frames sent: [op: an operation|"commit"|"discard"|"bad"|"unknown", end: the client ends the stream with it]
  got,    \* stream |-> the answers seen: [a, end: the server ends the stream with it]
  over,   \* stream |-> its connection
  link    \* connection |-> "shaky" (the server may end it) | "going" (it stops) | "cut"; it is up otherwise
svars == <<asked, got, over, link>>
Ops == {"op", "set", "get", "exists", "delete", "scan"}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
At(f, k) == IF k \in DOMAIN f THEN f[k] ELSE <<>>
Empty == [x \in {} |-> <<>>]
SInit == asked = Empty /\ got = Empty /\ over = Empty /\ link = Empty
SReset == asked' = Empty /\ got' = Empty /\ over' = Empty /\ link' = Empty
Link(c) == IF c \in DOMAIN link THEN link[c] ELSE "up"
LinkOf(s) == Link(over[s])

Ends(f) == f.op \in {"commit", "discard", "bad", "unknown"} \/ f.end
\* the frames that count: up to the first that ends the stream
RECURSIVE Upto(_, _)
Upto(fs, i) == IF i > Len(fs) THEN fs ELSE IF Ends(fs[i]) THEN SubSeq(fs, 1, i) ELSE Upto(fs, i + 1)
Counts(fs) == Upto(fs, 1)
\* what is answered to a frame; end: "yes", "no", or "any" where nobody waits for more
A1(a, end) == <<[a |-> a, end |-> end]>>
Ans(f, first) ==
  IF f.op \in Ops THEN IF first /\ f.end THEN A1(f.op, "any")      \* one operation on its own
                       ELSE IF f.end THEN A1(f.op, "no") \o A1("discard", "yes")
                       ELSE A1(f.op, "no")
  ELSE IF f.op = "bad" THEN A1("bad", IF first THEN "any" ELSE "yes")
  ELSE IF first THEN A1("reset", "any")
  ELSE A1(f.op, "yes")
RECURSIVE Answers(_, _)
Answers(fs, i) == IF i > Len(fs) THEN <<>> ELSE Ans(fs[i], i = 1) \o Answers(fs, i + 1)
Expected(s) == Answers(Counts(At(asked, s)), 1)
Committed(s) == \E fs \in {Counts(At(asked, s))} : Len(fs) > 0 /\ IF Len(fs) = 1 THEN fs[1].op \in Ops /\ fs[1].end
                ELSE fs[Len(fs)].op = "commit"

Closed(s) == \E i \in 1..Len(At(asked, s)) : asked[s][i].end
\* the client sends a frame (before it ended the stream)
Ask(c, s, op, end) ==
  /\ op = "unknown" => At(asked, s) = <<>>                \* (within a stream: up to the server)
  /\ Link(c) # "cut" /\ ~Closed(s) /\ (s \in DOMAIN over => over[s] = c)
  /\ asked' = Put(asked, s, Append(At(asked, s), [op |-> op, end |-> end])) /\ over' = Put(over, s, c)
  /\ link' = IF op \in {"bad", "unknown"} \/ (At(asked, s) = <<>> /\ op \notin Ops) THEN Put(link, c, "shaky") ELSE link
  /\ UNCHANGED got
Answer(c, s, a, end) ==
  /\ s \in DOMAIN asked /\ over[s] = c
  /\ \A i \in 1..Len(At(got, s)) : got[s][i].a # "reset" /\ ~got[s][i].end
  /\ IF Link(c) = "going" /\ a = "reset" THEN TRUE ELSE \E es \in {Expected(s)} : \E n \in {Len(At(got, s)) + 1} :
       n <= Len(es) /\ es[n].a = a /\ es[n].end \in {"any", IF end THEN "yes" ELSE "no"}
  /\ got' = Put(got, s, Append(At(got, s), [a |-> a, end |-> end])) /\ UNCHANGED <<asked, over, link>>
\* the client (or what lies between) ends the connection
Cut(c) == link' = Put(link, c, "cut") /\ UNCHANGED <<asked, got, over>>
\* the server ends it, having been sent nonsense
Hangup(c) == Link(c) # "up" /\ Cut(c)
\* everything has come to rest: nothing is left unanswered, and n transactions are open at the server
Waiting(s) == LET fs == At(asked, s) IN fs # <<>> /\ ~\E i \in 1..Len(fs) : Ends(fs[i])
Open(l) == Cardinality({s \in DOMAIN asked : Waiting(s) /\ LinkOf(s) = l})
Rest(n) ==
  /\ \A s \in DOMAIN asked : LinkOf(s) = "up" => Len(At(got, s)) = Len(Expected(s))
  /\ n >= Open("up") /\ n <= Open("up") + Open("shaky")
  /\ UNCHANGED svars
\* the server begins to stop: it may end streams and connections
Stopping == /\ link' = [c \in {over[s] : s \in DOMAIN over} \cup DOMAIN link |-> IF Link(c) = "cut" THEN "cut" ELSE "going"]
            /\ UNCHANGED <<asked, got, over>>
\* the server has stopped: nothing is left open in its store
Stop(r, n) == r = "ok" /\ n = 0 /\ (\A s \in DOMAIN asked : LinkOf(s) = "cut") /\ UNCHANGED svars
\* whether the writes of stream s are in the store, all or none (part: some of them)
Fate(s, w) ==
  /\ w \in {"all", "none"}
  /\ w = "all" => Committed(s)
  /\ (w = "none" /\ Committed(s)) => LinkOf(s) # "up" /\ ~\E i \in 1..Len(At(got, s)) : got[s][i].a = "commit" \/ (got[s][i].a \in Ops /\ Len(asked[s]) = 1)
  /\ UNCHANGED svars
=============================================================================
