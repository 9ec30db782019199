------------------------------- MODULE ChainGen -------------------------------
(* Interceptor scenarios: n interceptors; every message says what each of them does with it: pass it on (p), pass it on with a
   new response value (r), pass a new request on (q), stop it (s); a capital letter: return a value of its own. *)
EXTENDS Integers, Sequences, GenLib
CONSTANTS NMsg
VARIABLES n, msgs, done
vars == <<n, msgs, done>>
Init == n = -1 /\ msgs = <<>> /\ done = FALSE
Size == n = -1 /\ n' = Pick({0, 1, 2, 3, 3, 4, 5, 8}) /\ UNCHANGED <<msgs, done>>
Acts == <<"p", "p", "p", "P", "r", "R", "q", "Q", "s", "S">>
One(j) == IF Pick(1..3) = 1 THEN "p" ELSE Acts[Pick(1..Len(Acts))]
Msg == /\ n >= 0 /\ Len(msgs) < NMsg /\ UNCHANGED <<n, done>>
       /\ msgs' = Append(msgs, [acts |-> [j \in 1..n |-> One(j)], c |-> Pick(1..3), pause |-> Pick({0, 0, 0, 1})])
Finish == ~done /\ Len(msgs) >= NMsg /\ done' = TRUE /\ UNCHANGED <<n, msgs>> /\ Emit([n |-> n, msgs |-> msgs, seed |-> Pick(0..99999)])
Next == Size \/ Msg \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
