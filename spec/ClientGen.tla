------------------------------- MODULE ClientGen -------------------------------
(* Histories of a client and its server: rounds of steps that run concurrently.  via: in a goroutine, in a message handler, in the
   next start hook, in the next stop hook. *)
EXTENDS Integers, Sequences, GenLib
CONSTANTS NRound, Hold
VARIABLES rounds, done
vars == <<rounds, done>>
Init == rounds = <<>> /\ done = FALSE
P(s) == s[Pick(1..Len(s))]
B(op) == [op |-> op, via |-> "go", n |-> 0, pause |-> 0, how |-> ""]
Pause(x) == P(<<0, 0, 0, 0, 1, 2, 4>>)
Att(x) == [B("att") EXCEPT !.pause = Pause(0)]
Stop(x) == [B("stop") EXCEPT !.via = P(<<"go", "go", "go", "go", "msg", "start", "end">>), !.pause = Pause(0)]
Msg(x) == [B("msg") EXCEPT !.n = P(<<1, 1, 2, 10>>), !.pause = Pause(0)]
PEnd(x) == [B("pend") EXCEPT !.how = P(<<"close", "close", "abort">>), !.pause = Pause(0)]
Mode(m) == [B("mode") EXCEPT !.how = m]
Again(x) == [B("att") EXCEPT !.via = "end"]
Slow(x) == [B("slow") EXCEPT !.n = P(<<1, 3>>)]
Mode1(x) == Mode(P(<<"acc", "acc", "ref", IF Hold = 1 THEN "hold" ELSE "acc", "mute">>))
Single(x) == CASE Pick(1..14) = 1 -> <<Slow(0)>> [] Pick(1..6) = 1 -> <<Again(0)>> [] Pick(1..5) = 1 -> <<Mode1(0)>> [] Pick(1..4) = 1 -> <<Msg(0)>> [] Pick(1..4) = 1 -> <<PEnd(0)>> [] Pick(1..5) = 1 -> <<Stop(0)>>
            [] OTHER -> <<Att(0)>>
Double(x) == CASE Pick(1..4) = 1 -> <<Att(0), Stop(0)>> [] Pick(1..4) = 1 -> <<Stop(0), PEnd(0)>> [] Pick(1..4) = 1 -> <<Stop(0), Stop(0)>> [] Pick(1..4) = 1 -> <<Msg(0), PEnd(0)>> [] Pick(1..3) = 1 -> <<Msg(0), Stop(0)>>
            [] Pick(1..3) = 1 -> <<Stop(0), Mode1(0)>> [] OTHER -> <<Att(0), PEnd(0), Msg(0)>>
Round == /\ ~done /\ Len(rounds) < NRound /\ UNCHANGED done
         /\ \E r \in {IF Len(rounds) = 0 /\ Pick(1..3) # 1 THEN <<Att(0)>> ELSE IF Pick(1..3) = 1 THEN Double(0) ELSE Single(0)}, q \in {Pick(0..1)} : rounds' = Append(rounds, [steps |-> r, quiet |-> q])
\* an attempt fails while nobody reads the errors
One(s) == [steps |-> <<s>>, quiet |-> 0]
Unheard == /\ ~done /\ Len(rounds) + 5 < NRound /\ Pick(1..8) = 1 /\ UNCHANGED done
           /\ \E f \in {[Att(0) EXCEPT !.pause = 0]}, s \in {[Stop(0) EXCEPT !.via = "go"]} : rounds' = rounds \o <<One(Mode("ref")), One(Mode("mute")), One(f), One(s), One(Mode("acc"))>>
Finish == ~done /\ Len(rounds) >= NRound /\ done' = TRUE /\ UNCHANGED rounds /\ Emit([rounds |-> rounds])
Next == Unheard \/ Round \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
