------------------------------- MODULE MapGen -------------------------------
(* Concurrent programs on a map: rounds in which NT threads run short programs at the same time.  Whole = 1: with calls that
   only count (few keys then). *)
EXTENDS Integers, Sequences, GenLib
CONSTANTS NT, NR, NK, Whole, Ops
VARIABLES rounds, done
vars == <<rounds, done>>
Init == rounds = <<>> /\ done = FALSE
P(s) == s[Pick(1..Len(s))]
Single == <<"get", "get", "set", "set", "setnx", "setnx", "has", "rm", "rmcb", "rmcb", "pop", "pop">>
Multi == <<"items", "keys", "iterbuf", "itercb", "json", "unjson", "mset", "clear", "abandon", "iterset">>
Props == <<"get", "get", "set", "set", "set", "rm">>
Kind(j) == IF Ops = "props" THEN P(Props) ELSE IF Whole = 1 THEN (IF Pick(1..3) = 1 THEN P(<<"count", "count", "empty">>) ELSE P(Single)) ELSE IF Pick(1..5) = 1 THEN P(Multi) ELSE P(Single)
Hot(j) == IF Pick(1..2) = 1 THEN 1 ELSE Pick(1..NK)       \* key 1 is the hot one
Op(j) == [op |-> Kind(j), k |-> Hot(j), k2 |-> Pick(1..NK), v |-> Pick(1..5), c |-> Pick({0, 1, 2})]
Prog(t) == [j \in 1..(IF Whole = 1 THEN Pick(1..2) ELSE Pick(1..4)) |-> Op(j)]
Round == ~done /\ Len(rounds) < NR /\ rounds' = Append(rounds, [t \in 1..NT |-> Prog(t)]) /\ UNCHANGED done
Finish == ~done /\ Len(rounds) >= NR /\ done' = TRUE /\ UNCHANGED rounds
          /\ Emit([rounds |-> rounds, keys |-> NK, hash |-> P(<<"default", "default", "one", "two">>), seed |-> Pick(0..99999)])
Next == Round \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
