------------------------------ MODULE MCSession ------------------------------
(* The algorithm of the server and of the library under it, frame by frame:   *)
(* a reader hands the frames of each stream to its handler, which answers in  *)
(* turn; the connection may go at any moment, and the server may stop.        *)
(* Everything seen must be allowed by Session.tla, every handler ends, and    *)
(* the store is closed only when nobody works on it.                          *)
EXTENDS Session
CONSTANTS Streams, MaxFrames,
          Rule  \* "code", or a handler that: "commits" on a half-closed stream, is "deaf" to the end of
                \* the connection, "keeps" the transaction after nonsense, "rushes" to close the store
VARIABLES inq, outq, h, tx, done, lost, good, srv, rest
mvars == <<svars, inq, outq, h, tx, done, lost, good, srv, rest>>
NoneOf(v) == [s \in Streams |-> v]
MInit == SInit /\ inq = NoneOf(<<>>) /\ outq = NoneOf(<<>>) /\ h = NoneOf("none") /\ tx = NoneOf("none")
         /\ done = NoneOf("no") /\ lost = NoneOf(FALSE) /\ good = TRUE /\ srv = "up" /\ rest = FALSE
Set(f, s, v) == [f EXCEPT ![s] = v]
Try(A) == IF ENABLED A THEN A /\ UNCHANGED good ELSE good' = FALSE /\ UNCHANGED svars

ASend(s) ==
  /\ Link(1) # "cut" /\ ~Closed(s) /\ Len(At(asked, s)) < MaxFrames
  /\ \E op \in {"op", "commit", "discard", "bad"}, end \in BOOLEAN :
       /\ (op \in {"commit", "discard"} => end) /\ (op = "bad" => ~end)
       /\ (At(asked, s) = <<>> => op \in {"op", "bad"})
       /\ Ask(1, s, op, end)
       /\ inq' = Set(inq, s, Append(inq[s], [op |-> op, end |-> end]))
  /\ UNCHANGED <<outq, h, tx, done, lost, good, srv, rest>>
Out(s, as) == outq' = Set(outq, s, outq[s] \o as)
B1(a, e) == <<[a |-> a, end |-> e]>>
\* a stream begins
Enter(s) ==
  /\ h[s] = "none" /\ inq[s] # <<>> /\ Link(1) # "cut" /\ srv = "up"
  /\ LET f == Head(inq[s]) IN
     /\ inq' = Set(inq, s, Tail(inq[s]))
     /\ IF f.op = "bad" THEN h' = Set(h, s, "drain") /\ tx' = tx /\ Out(s, B1("bad", FALSE))
        ELSE IF f.end THEN h' = Set(h, s, "done") /\ tx' = Set(tx, s, "committed") /\ Out(s, B1("op", FALSE))
        ELSE h' = Set(h, s, "work") /\ tx' = Set(tx, s, "open") /\ Out(s, B1("op", FALSE))
  /\ UNCHANGED <<svars, done, lost, good, srv, rest>>
\* one more frame of it
Serve(s) ==
  /\ h[s] = "work"
  /\ \/ /\ inq[s] # <<>>
        /\ LET f == Head(inq[s]) IN
           /\ inq' = Set(inq, s, Tail(inq[s]))
           /\ IF f.op = "op" THEN h' = Set(h, s, IF f.end THEN "eos" ELSE "work") /\ tx' = tx /\ Out(s, B1("op", FALSE))
              ELSE IF f.op = "bad" THEN h' = Set(h, s, "drain") /\ tx' = Set(tx, s, IF Rule = "keeps" THEN "open" ELSE "discarded") /\ Out(s, B1("bad", TRUE))
              ELSE h' = Set(h, s, "done") /\ Out(s, B1(f.op, TRUE))
                   /\ tx' = Set(tx, s, IF f.op = "commit" THEN "committed" ELSE "discarded")
     \/ Link(1) = "cut" /\ Rule # "deaf" /\ h' = Set(h, s, "done") /\ tx' = Set(tx, s, "discarded") /\ UNCHANGED <<inq, outq>>
  /\ UNCHANGED <<svars, done, lost, good, srv, rest>>
EndOfStream(s) == /\ h[s] = "eos" /\ h' = Set(h, s, "done") /\ Out(s, B1("discard", TRUE))
                  /\ tx' = Set(tx, s, IF Rule = "commits" THEN "committed" ELSE "discarded")
                  /\ UNCHANGED <<svars, inq, done, lost, good, srv, rest>>
Drain(s) == /\ h[s] = "drain"
            /\ \/ inq[s] # <<>> /\ inq' = Set(inq, s, Tail(inq[s])) /\ h' = IF Head(inq[s]).end THEN Set(h, s, "done") ELSE h
               \/ Link(1) = "cut" /\ h' = Set(h, s, "done") /\ UNCHANGED inq
            /\ UNCHANGED <<svars, outq, tx, done, lost, good, srv, rest>>
Recv(s) ==
  /\ outq[s] # <<>> /\ Link(1) # "cut"
  /\ outq' = Set(outq, s, Tail(outq[s]))
  /\ LET a == Head(outq[s]) IN Try(Answer(1, s, a.a, a.end))
  /\ UNCHANGED <<inq, h, tx, done, lost, srv, rest>>
\* the connection goes; what was under way may or may not have arrived
ACut ==
  /\ Link(1) # "cut" /\ Cut(1)
  /\ \E n \in [Streams -> 0..MaxFrames] : /\ \A s \in Streams : n[s] <= Len(inq[s])
                                          /\ inq' = [s \in Streams |-> SubSeq(inq[s], 1, n[s])]
  /\ outq' = NoneOf(<<>>) /\ UNCHANGED <<h, tx, done, lost, good, srv, rest>>
AStop == /\ srv = "up" /\ srv' = "stopping" /\ Cut(1) /\ inq' = NoneOf(<<>>) /\ outq' = NoneOf(<<>>)
         /\ UNCHANGED <<h, tx, done, lost, good, rest>>
Idle(s) == h[s] \in {"none", "done"}
Stopped == /\ srv = "stopping" /\ (Rule = "rushes" \/ \A s \in Streams : Idle(s)) /\ srv' = "stopped"
           /\ UNCHANGED <<svars, inq, outq, h, tx, done, lost, good, rest>>
\* nothing is under way
Quiet == \A s \in Streams : /\ outq[s] = <<>> /\ (inq[s] = <<>> \/ (Link(1) = "cut" /\ h[s] = "none")) /\ h[s] # "eos"
                            /\ (Link(1) = "cut" => Idle(s))
Look == /\ Quiet /\ ~rest /\ rest' = TRUE
        /\ LET n == Cardinality({s \in Streams : tx[s] = "open"}) IN
           good' = (good /\ ENABLED Rest(n) /\ \A s \in Streams : ENABLED Fate(s, IF tx[s] = "committed" THEN "all" ELSE "none"))
        /\ UNCHANGED <<svars, inq, outq, h, tx, done, lost, srv>>
ServerStep == \E s \in Streams : Enter(s) \/ Serve(s) \/ EndOfStream(s) \/ Drain(s) \/ Recv(s)
MNext == ((\E s \in Streams : ASend(s)) /\ ~rest) \/ ServerStep \/ (ACut /\ ~rest) \/ (AStop /\ ~rest) \/ Stopped \/ Look
MSpec == MInit /\ [][MNext]_mvars
MFair == MSpec /\ WF_mvars(ServerStep) /\ WF_mvars(Stopped)
         /\ \A s \in Streams : WF_mvars(Enter(s) \/ Serve(s) \/ EndOfStream(s) \/ Drain(s)) /\ WF_mvars(Recv(s))

Allowed == good
\* nobody works on a closed store, and nothing is left open in it
Careful == srv = "stopped" => \A s \in Streams : Idle(s) /\ tx[s] # "open"
\* whoever is finished has let go of its transaction
LetsGo == \A s \in Streams : h[s] \in {"done", "drain"} => tx[s] # "open"
Ends4 == (Link(1) = "cut") ~> (\A s \in Streams : Idle(s))
Answered == \A s \in Streams : (Len(At(got, s)) < Len(Expected(s))) ~> (Link(1) = "cut" \/ Len(At(got, s)) = Len(Expected(s)))
Stops == (srv = "stopping") ~> (srv = "stopped")
=============================================================================
