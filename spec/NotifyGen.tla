------------------------------- MODULE NotifyGen -------------------------------
(* Rounds of calls that run concurrently; some rounds end connections. *)
EXTENDS Integers, Sequences, GenLib
CONSTANTS NRound, NI, NC
VARIABLES rounds, ended, done
vars == <<rounds, ended, done>>
Init == rounds = <<>> /\ ended = {} /\ done = FALSE
P(s) == s[Pick(1..Len(s))]
Step(j) == [op |-> P(<<"set", "set", "set", "del", "one", "one", "all", "all", "has", "get", "num">>), n |-> IF Pick(1..2) = 1 THEN Pick(1..3) ELSE Pick(1..NI), c |-> Pick(1..NC), buff |-> Pick(0..1), size |-> P(<<0, 0, 1, 100, 3000>>)]
\* filling the registry quickly
Fill == [j \in 1..NI |-> [op |-> "set", n |-> j, c |-> Pick(1..NC), buff |-> 0, size |-> 0]]
End(j) == [op |-> "end", n |-> 0, c |-> Pick(2..NC), buff |-> Pick(0..1), size |-> 0]
Round == /\ ~done /\ Len(rounds) < NRound /\ UNCHANGED <<done, ended>>
         /\ \E n \in {P(<<1, 1, 2, 3, 3, 4, 5>>)}, e \in {Pick(1..9)}, x \in {End(0)}, f \in {Fill} :
              rounds' = Append(rounds, IF e = 1 /\ Len(rounds) > 3 THEN <<x>> \o [j \in 1..n |-> Step(j)] ELSE IF e = 2 THEN f ELSE [j \in 1..n |-> Step(j)])
Finish == ~done /\ Len(rounds) >= NRound /\ done' = TRUE /\ UNCHANGED <<rounds, ended>> /\ Emit([rounds |-> rounds, ni |-> NI, nc |-> NC, seed |-> Pick(1..100000)])
Next == Round \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
