------------------------------- MODULE AsyncGen -------------------------------
(* Scenarios: rounds of steps that run concurrently.  A step sets a result, registers a completion, looks at a result, submits an
   operation (that then runs steps itself), sends a message; via: a goroutine of its own, a message handler (on the worker). *)
EXTENDS Integers, Sequences, GenLib
CONSTANTS NRound, NR, NC, Storm
VARIABLES rounds, no, nv, done
vars == <<rounds, no, nv, done>>
Init == rounds = <<>> /\ no = 0 /\ nv = 0 /\ done = FALSE
P(s) == s[Pick(1..Len(s))]
Ids == <<0, 0, 0, 1, -1, 2048, 2049, 7, -7, 123456789, 99>>
\* results of the round before are taken up again, new ones are more frequent
R(x) == LET k == Len(rounds) IN IF Pick(1..3) = 1 THEN Pick(1..NR) ELSE 1 + ((k * 2 + Pick(0..1)) % NR)
Simple(v) == [op |-> P(<<"set", "set", "on", "on", "get">>), r |-> R(0), v |-> v, via |-> P(<<"go", "go", "msg">>), c |-> Pick(1..NC), id |-> 0, o |-> 0, pause |-> P(<<0, 0, 0, 1>>), sub |-> <<>>, bad |-> 0]
Op(o, v) == [op |-> "op", r |-> 0, v |-> 0, via |-> P(<<"go", "msg">>), c |-> Pick(1..NC), id |-> P(Ids), o |-> o, pause |-> P(<<0, 0, 1, 2>>), bad |-> P(<<0, 0, 0, 1>>),
             sub |-> [j \in 1..P(<<0, 1, 1, 2>>) |-> Simple(v + j)]]
Msg == [op |-> "msg", r |-> 0, v |-> 0, via |-> "go", c |-> 1, id |-> 0, o |-> 0, pause |-> 0, sub |-> <<>>, bad |-> 0]
Burst(o) == [op |-> "burst", r |-> 0, v |-> P(<<10, 500, 2048, 3000>>), via |-> "go", c |-> 1, id |-> P(Ids), o |-> o, pause |-> 0, sub |-> <<>>, bad |-> 0]
\* everybody at one result at the same time
Race(k, j) == [Simple(nv + j * 3) EXCEPT !.op = P(<<"set", "set", "on", "on", "get">>), !.r = 1 + (k % NR), !.via = "go", !.pause = 0]
Step(j) == CASE Pick(1..20) = 1 -> [Msg EXCEPT !.c = Pick(1..NC)] [] Pick(1..60) = 1 -> Burst(no + j)
             [] Pick(1..3) = 1 -> Op(no + j, nv + j * 3) [] OTHER -> Simple(nv + j * 3)
Round == /\ ~done /\ Len(rounds) < NRound /\ UNCHANGED done
         /\ \E n \in {P(<<2, 2, 3, 3, 4, 6>>)} : rounds' = Append(rounds, [j \in 1..n |-> IF Storm = 1 THEN Race(Len(rounds), j) ELSE Step(j)]) /\ no' = no + n /\ nv' = nv + 3 * n + 3
Finish == ~done /\ Len(rounds) >= NRound /\ done' = TRUE /\ UNCHANGED <<rounds, no, nv>> /\ Emit([rounds |-> rounds, nr |-> NR, nc |-> NC])
Next == Round \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
