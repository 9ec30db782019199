----------------------------- MODULE DispatchGen -----------------------------
(* Dispatch scenarios.  Focus = "order": bursts, slow and blocking handlers, orderly closes with work still queued.
   Focus = "bind": never more than MaxConn open; handlers blocked on some connections while the others must be served
   (Settle while blocked), closes and replacements at capacity.  Focus = "panic": panics everywhere. *)
EXTENDS Integers, Sequences, FiniteSets, GenLib
CONSTANTS Depth, Focus, NC, MaxConn, Kcp
VARIABLES ph, blk, ops, done
vars == <<ph, blk, ops, done>>
C == 1..NC
Init == ph = [c \in C |-> "none"] /\ blk = {} /\ ops = <<>> /\ done = FALSE
Op(r) == ops' = Append(ops, r)
Opened == {c \in C : ph[c] = "open"}
Lowest == CHOOSE c \in C : ph[c] = "none" /\ \A d \in C : ph[d] = "none" => d >= c

Kinds == CASE Focus = "order" -> <<"ok", "ok", "ok", "slow", "slow", "unk">>
           [] Focus = "bind" -> <<"ok", "ok", "slow">>
           [] OTHER -> <<"ok", "ok", "unk", "panpre", "panh", "panpost", "panh">>
Sizes == IF Focus = "order" THEN <<1, 2, 5, 12, 30>> ELSE <<1, 2, 3, 6>>
One(j) == Kinds[Pick(1..Len(Kinds))]
Burst(n) == [j \in 1..n |-> One(j)]

Open == /\ \E c \in C : ph[c] = "none"
        /\ Cardinality(Opened) < MaxConn
        /\ ph' = [ph EXCEPT ![Lowest] = "open"] /\ UNCHANGED blk
        /\ Op([op |-> "open", c |-> Lowest, hook |-> IF Focus = "panic" THEN Pick({"", "", "", "start", "stop"}) ELSE ""])
Send(c) == ph[c] = "open" /\ UNCHANGED <<ph, blk>> /\ Op([op |-> "send", c |-> c, ks |-> Burst(Sizes[Pick(1..Len(Sizes))]), glue |-> Pick({0, 1})])
Block(c) == ph[c] = "open" /\ c \notin blk /\ Focus # "panic" /\ blk' = blk \cup {c} /\ UNCHANGED ph /\ Op([op |-> "send", c |-> c, ks |-> <<"block">>, glue |-> 0])
Rel(c) == c \in blk /\ blk' = blk \ {c} /\ UNCHANGED ph /\ Op([op |-> "rel", c |-> c])
Settle == /\ Opened # {} /\ (Focus = "bind" \/ blk = {})
          /\ UNCHANGED <<ph, blk>>
          /\ Op([op |-> "settle", skip |-> [c \in C |-> IF c \in blk THEN 1 ELSE 0]])
\* in the bound scenarios a connection closes only when it has nothing left to do
Close(c) == /\ ph[c] = "open" /\ (Focus = "bind" => c \notin blk) /\ (Kcp = 1 /\ Focus = "order" => blk = {})
            /\ ph' = [ph EXCEPT ![c] = "closed"] /\ UNCHANGED blk
            /\ Op([op |-> "close", c |-> c, how |-> IF Kcp = 1 THEN "kill" ELSE IF Focus = "order" THEN "peer" ELSE Pick({"peer", "abort", "kill"}),
                   idle |-> IF Focus = "order" /\ Kcp = 0 THEN 0 ELSE 1])
\* panics outside message handlers
Task(c) == Focus = "panic" /\ ph[c] = "open" /\ UNCHANGED <<ph, blk>>
           /\ Op([op |-> "task", c |-> c, what |-> Pick({"func", "async", "complete", "timer", "closecb"}), bad |-> Pick({0, 1, 1})])
Icp(c) == Focus = "panic" /\ ph[c] = "open" /\ Pick(1..3) = 1 /\ UNCHANGED <<ph, blk>>
          /\ Op([op |-> "send", c |-> c, ks |-> Pick({<<"ok", "icp", "ok">>, <<"icp">>, <<"ok", "ok", "panh", "icp">>}), glue |-> Pick({0, 1})])
Some == Pick(C)
Step == /\ ~done /\ Len(ops) < Depth
        /\ \/ Open
           \/ \E c \in Opened : Send(c)
           \/ \E c \in Opened : Block(c)
           \/ \E c \in Opened : Rel(c)
           \/ Settle
           \/ \E c \in Opened : Close(c)
           \/ \E c \in Opened : Task(c) \/ Icp(c)
        /\ UNCHANGED done
Finish == /\ ~done /\ Len(ops) >= Depth /\ done' = TRUE /\ UNCHANGED <<ph, blk, ops>>
          /\ Emit([n |-> NC, ops |-> ops, seed |-> Pick(0..99999)])
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
