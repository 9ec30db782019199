------------------------------- MODULE LifeGen -------------------------------
(* Scenarios of connection life: rounds of operations that run concurrently, separated by "bar" (wait for the calls to
   return) or "quiet" (and for everything that has to happen).
   Focus: "life" (hooks, callbacks, ends of all kinds), "reg" (registry queries during churn), "limit" (few places, many
   clients at once), "stop" (server stop in the middle of everything). *)
EXTENDS Integers, Sequences, FiniteSets, GenLib
CONSTANTS Depth, Focus, NC, Trs
VARIABLES ph, ops, done, cbn, stopped
vars == <<ph, ops, done, cbn, stopped>>
C == 1..NC
TrSeq == IF Trs = "both" THEN <<"tcp", "ws">> ELSE <<Trs>>
Init == ph = [c \in C |-> "none"] /\ ops = <<>> /\ done = FALSE /\ cbn = 0 /\ stopped = FALSE
Op(r) == ops' = Append(ops, r)
P(seq) == seq[Pick(1..Len(seq))]
Lowest == CHOOSE c \in C : ph[c] = "none" /\ \A d \in C : ph[d] = "none" => d >= c
Live == {c \in C : ph[c] = "live"}
\* "new" connections become usable by other operations after the next bar
Dial == /\ \E c \in C : ph[c] = "none"
        /\ ph' = [ph EXCEPT ![Lowest] = "new"] /\ UNCHANGED <<cbn, stopped>>
        /\ Op([op |-> "dial", c |-> Lowest, tr |-> P(TrSeq),
               sh |-> IF Focus \in {"life", "stop"} THEN P(<<"", "", "slow", "stop", "cb", "cb", "cbstop", "send">>) ELSE P(<<"", "slow">>),
               eh |-> IF Focus = "life" THEN P(<<"", "slow", "stop", "rm">>) ELSE P(<<"", "slow">>)])
Simple(r) == Op(r) /\ UNCHANGED <<ph, cbn, stopped>>
Close(c) == ph[c] = "live" /\ ph' = [ph EXCEPT ![c] = "old"] /\ UNCHANGED <<cbn, stopped>> /\ Op([op |-> P(<<"close", "abort">>), c |-> c])
Stop(c) == /\ ph[c] = "live" /\ ph' = [ph EXCEPT ![c] = P(<<"old", "live">>)] /\ UNCHANGED <<cbn, stopped>>
           /\ Op([op |-> "stop", c |-> c, k |-> P(<<1, 1, 2, 3>>)])
Send(c) == ph[c] = "live" /\ Simple([op |-> "send", c |-> c, what |-> IF Focus \in {"life", "stop"} THEN P(<<"ok", "ok", "stopself", "block", "flood">>) ELSE "ok"])
AddCb(c) == ph[c] = "live" /\ cbn' = cbn + 1 /\ UNCHANGED <<ph, stopped>> /\ Op([op |-> "addcb", c |-> c, n |-> cbn + 1])
RmCb(c) == ph[c] = "live" /\ cbn > 0 /\ Simple([op |-> "rmcb", c |-> c, n |-> Pick(1..cbn)])
Stall(c) == ph[c] = "live" /\ Simple([op |-> "stall", c |-> c])
Clear == Simple([op |-> "clear"])
Query == Simple([op |-> "query", what |-> P(<<"len", "ids", "idstrs", "range", "range2", "get", "get", "get2">>), c |-> Pick(C)])
Last == IF ops = <<>> THEN "bar" ELSE ops[Len(ops)].op
Bar == /\ Last \notin {"bar", "quiet"} /\ ph' = [c \in C |-> IF ph[c] = "new" THEN "live" ELSE ph[c]] /\ UNCHANGED <<cbn, stopped>>
       /\ Op([op |-> P(<<"bar", "bar", "quiet">>)])
SStop == ~stopped /\ Focus = "stop" /\ Len(ops) > Depth \div 2 /\ stopped' = TRUE /\ Op([op |-> "sstop"]) /\ UNCHANGED <<ph, cbn>>
Step == /\ ~done /\ Len(ops) < Depth /\ UNCHANGED done
        /\ CASE Focus = "life" -> Dial \/ Dial \/ Bar \/ (\E c \in Live : Close(c) \/ Stop(c) \/ Send(c) \/ AddCb(c) \/ RmCb(c) \/ Stall(c)) \/ (Pick(1..4) = 1 /\ Clear)
             [] Focus = "reg" -> Dial \/ Bar \/ Query \/ (\E c \in Live : Close(c) \/ Stop(c)) \/ (Pick(1..6) = 1 /\ Clear)
             [] Focus = "limit" -> Dial \/ Bar \/ (\E c \in Live : Close(c) \/ Stop(c)) \/ (Pick(1..8) = 1 /\ Clear)
             [] Focus = "stop" -> Dial \/ Bar \/ (\E c \in Live : Close(c) \/ Send(c) \/ Stall(c)) \/ SStop
Finish == /\ ~done /\ Len(ops) >= Depth /\ done' = TRUE /\ UNCHANGED <<ph, ops, cbn, stopped>>
          /\ Emit([n |-> NC, ops |-> ops \o (IF Focus = "stop" /\ ~stopped THEN <<[op |-> "sstop"]>> ELSE <<>>), seed |-> Pick(0..99999)])
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
