------------------------------ MODULE RouterGen ------------------------------
(* Routing scenarios: a history of registrations (also refused ones), then messages whose handlers jump, abort, call next
   and panic: the k-th handler a message starts performs acts[k]. *)
EXTENDS Integers, Sequences, GenLib
CONSTANTS Slices, NReg, NMsg
VARIABLES regs, msgs, h, ng, done
vars == <<regs, msgs, h, ng, done>>
Ids == {0, 1, 2, 3, 10, 11, 12, 20, 65535}
IdsOut == Ids \cup {4, 9, 13}
Init == regs = <<>> /\ msgs = <<>> /\ h = 1 /\ ng = 0 /\ done = FALSE
Count(j) == IF Pick(1..25) = 1 THEN Pick({126, 127, 128, 129, 140, 260}) ELSE Pick({0, 1, 1, 1, 2, 3, 4})
Reg == /\ Len(regs) < NReg
       /\ LET n == IF Slices = 1 THEN Count(Len(regs)) ELSE 1 k == IF Slices = 1 THEN Pick({"use", "reg", "reg", "reg", "group", "guse", "greg", "greg", "greg"}) ELSE "reg" IN
          /\ h' = h + n
          /\ CASE k = "group" -> ng' = ng + 1 /\ LET lo == Pick(Ids) hi == Pick(Ids) IN regs' = Append(regs, [k |-> "group", g |-> ng + 1, id |-> lo, hi |-> hi, from |-> h, n |-> n])
               [] k \in {"guse", "greg"} /\ ng > 0 -> ng' = ng /\ regs' = Append(regs, [k |-> k, g |-> Pick(1..ng), id |-> Pick(Ids), hi |-> 0, from |-> h, n |-> n])
               [] k = "use" -> ng' = ng /\ regs' = Append(regs, [k |-> "use", g |-> 0, id |-> 0, hi |-> 0, from |-> h, n |-> n])
               [] OTHER -> ng' = ng /\ regs' = Append(regs, [k |-> "reg", g |-> 0, id |-> Pick(Ids), hi |-> 0, from |-> h, n |-> n])
       /\ UNCHANGED <<msgs, done>>
Acts == IF Slices = 1 THEN <<"", "", "", "", "", "", "n", "n", "nn", "a", "na", "an", "p", "np">> ELSE <<"", "", "", "", "0", "1", "2", "a", "2a", "a1", "12", "3", "p", "1p">>
One(j) == Acts[Pick(1..Len(Acts))]
Msg == /\ Len(regs) >= NReg /\ Len(msgs) < NMsg
       /\ msgs' = Append(msgs, [id |-> Pick(IdsOut), acts |-> [j \in 1..Pick({0, 1, 2, 4, 6, 9}) |-> One(j)]]) /\ UNCHANGED <<regs, h, ng, done>>
Finish == ~done /\ Len(msgs) >= NMsg /\ done' = TRUE /\ UNCHANGED <<regs, msgs, h, ng>> /\ Emit([regs |-> regs, msgs |-> msgs, seed |-> Pick(0..99999)])
Next == Reg \/ Msg \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
