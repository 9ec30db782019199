------------------------------- MODULE SendGen -------------------------------
(* Scenarios of sending: phases in which several goroutines each send a list of messages while the peer reads, reads
   slowly or reads nothing.  Focus = "deliver": the connection stays open.  Focus = "end": in one phase the connection is
   ended, by one of several ways, at some moment while the senders are busy (or blocked), and more sends follow. *)
EXTENDS Integers, Sequences, GenLib
CONSTANTS Depth, Focus, Big
VARIABLES ops, ended, done
vars == <<ops, ended, done>>
Init == ops = <<>> /\ ended = FALSE /\ done = FALSE
Sizes == IF Big = 1 THEN <<0, 1, 3, 17, 300, 1400, 5000, 8191, 16368, 16375, 16376, 16377, 16384, 20000, 33000, 70000, 200000>>
                    ELSE <<0, 1, 2, 3, 17, 100, 300, 700, 1400, 1500, 3000>>
Small == <<0, 1, 5, 40, 300, 1000, 2000, 4000>>
One(j, mix) == [p |-> CASE mix = 1 -> Pick({"msg", "raw"}) [] mix = 2 -> Pick({"buff", "queue"}) [] OTHER -> Pick({"msg", "buff", "buff", "raw", "queue"}),
                sz |-> IF Pick({1, 2}) = 1 THEN Small[Pick(1..Len(Small))] ELSE Sizes[Pick(1..Len(Sizes))],
                d |-> Pick({0, 0, 0, 0, 1, 2, 6})]
Prog(g) == LET n == Pick(0..9) mix == Pick({0, 0, 1, 2}) IN [j \in 1..n |-> One(j, mix)]
Phase == /\ ~done /\ ~ended /\ Len(ops) < Depth /\ UNCHANGED <<ended, done>>
         /\ ops' = Append(ops, [op |-> "phase", peer |-> Pick({"read", "read", "slow", "pause"}), end |-> "", at |-> 0, how |-> "", progs |-> [g \in 1..Pick({1, 2, 3, 5}) |-> Prog(g)]])
\* a stalled peer: the goroutines send until they block
End == /\ ~done /\ ~ended /\ Focus = "end" /\ ended' = TRUE /\ UNCHANGED done
       /\ ops' = Append(ops, [op |-> "phase", peer |-> Pick({"read", "stall", "stall"}), end |-> Pick({"stop", "stop", "stop2", "peer", "abort", "sender"}), at |-> Pick({0, 1, 2, 5, 12, 30}), how |-> "",
                              progs |-> [g \in 1..Pick({1, 2, 3, 5}) |-> Prog(g)]])
After == /\ ~done /\ ended /\ ops' = Append(ops, [op |-> "after", peer |-> "", end |-> "", at |-> 0, how |-> "", progs |-> [g \in 1..3 |-> Prog(g)]])
         /\ UNCHANGED <<ended, done>> /\ Len(ops) < Depth
Finish == /\ ~done /\ Len(ops) >= Depth - 1 /\ (Focus = "end" => ended) /\ done' = TRUE /\ UNCHANGED <<ops, ended>>
          /\ Emit([ops |-> ops, seed |-> Pick(0..99999)])
Next == Phase \/ End \/ After \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
