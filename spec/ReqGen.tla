-------------------------------- MODULE ReqGen --------------------------------
(* Scenarios for request isolation: messages of several connections; each says what its three handlers (or stages) do with
   the request.  kind: how it ends - "ok", "pan" (panics), "abt" (aborts), "unk" (no route), "stp" (an interceptor stops it). *)
EXTENDS Integers, Sequences, GenLib
CONSTANTS NMsg, NC
VARIABLES msgs, done
vars == <<msgs, done>>
Init == msgs = <<>> /\ done = FALSE
Ops == <<"", "", "1", "2", "12", "13", "r", "c", "1c", "1c2", "c1r", "rc", "ic", "ci", "cd", "dc", "1cx", "cx1", "w", "w1", "cidr3", "1c2c3x">>
One(j) == Ops[Pick(1..Len(Ops))]
Msg == /\ Len(msgs) < NMsg /\ UNCHANGED done
       /\ msgs' = Append(msgs, [c |-> Pick(1..NC), kind |-> Pick({"ok", "ok", "ok", "ok", "pan", "abt", "unk", "stp"}), at |-> Pick(1..3), resp |-> Pick({0, 1}),
                                sz |-> Pick({0, 1, 3, 40, 900, 5000}), ops |-> [j \in 1..3 |-> One(j)], gap |-> Pick({0, 0, 0, 0, 1})])
Finish == ~done /\ Len(msgs) >= NMsg /\ done' = TRUE /\ UNCHANGED msgs /\ Emit([n |-> NC, msgs |-> msgs, seed |-> Pick(0..99999)])
Next == Msg \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
