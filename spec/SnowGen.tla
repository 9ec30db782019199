------------------------------- MODULE SnowGen -------------------------------
(* Id generator scenarios: generators with worker numbers (also invalid ones), rounds of concurrent draws, clock movements
   (in microseconds, forwards and backwards, around millisecond boundaries), bursts beyond the capacity of a millisecond. *)
EXTENDS Integers, Sequences, GenLib
CONSTANTS Depth
VARIABLES ops, done
vars == <<ops, done>>
Init == ops = <<>> /\ done = FALSE
P(s) == s[Pick(1..Len(s))]
New == ops' = Append(ops, [op |-> "new", w |-> P(<<0, 1, 2, 5, 511, 512, 1022, 1023, 1024, -1, 2000, 2048, 1000000, -1024>>)])
Clock == ops' = Append(ops, [op |-> "clock", d |-> P(<<1, 400, 999, 1000, 1001, 5000, 3000000, -1, -400, -1000, -1001, -2000, -30000, -3600000>>)])
Draw == ops' = Append(ops, [op |-> "draw", n |-> P(<<1, 1, 2, 5, 20>>), th |-> P(<<1, 2, 4, 8>>)])
Burst == ops' = Append(ops, [op |-> "burst", n |-> P(<<100, 4095, 4096, 4097, 4500, 8300>>)])
Step == ~done /\ Len(ops) < Depth /\ UNCHANGED done
        /\ (IF Len(ops) < 2 THEN New ELSE CASE P(<<"n", "c", "c", "c", "c", "d", "d", "d", "d", "d", "b">>) = "c" -> Clock [] Pick(1..12) = 1 -> Burst [] Pick(1..9) = 1 -> New [] OTHER -> Draw)
Finish == ~done /\ Len(ops) >= Depth /\ done' = TRUE /\ UNCHANGED ops
          /\ Emit([ops |-> ops, tick |-> P(<<100, 100, 220, 3000, 250000>>), seed |-> Pick(0..99999)])
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
