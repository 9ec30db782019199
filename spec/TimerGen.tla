------------------------------ MODULE TimerGen ------------------------------
(* Timer scenarios: creation instants and delays around the boundaries of seconds, minutes, hours and of the coarsest wheel,
   also in the past; cancellations around the due time and anywhere before; functions that panic; bursts with one due time.
   Cls: "short" (seconds and minutes), "mid" (hours), "long" (beyond the coarsest wheel). *)
EXTENDS Integers, Sequences, GenLib
CONSTANTS Depth, Cls
VARIABLES ops, nk, done
vars == <<ops, nk, done>>
Init == ops = <<>> /\ nk = 0 /\ done = FALSE
P(s) == s[Pick(1..Len(s))]
Near(x) == P(<<-1050, -1000, -999, -101, -100, -99, -51, -50, -49, -1, 0, 0, 1, 49, 50, 51, 100, 999>>)
Rnd(n) == Pick(0..n)
Delay(x) ==
  CASE Cls = "short" -> (CASE Pick(1..10) <= 1 -> P(<<-1, -50, -5000, -100000, 0, 0, 1>>)
                           [] Pick(1..9) <= 2 -> Rnd(3000)
                           [] Pick(1..7) <= 3 -> Pick(1..70) * 1000 + Near(0)
                           [] Pick(1..4) <= 2 -> Pick(1..2) * 60000 + Near(0)
                           [] OTHER -> Rnd(130000))
    [] Cls = "mid" -> (CASE Pick(1..10) <= 4 -> Pick(1..2) * 3600000 + Near(0)
                         [] Pick(1..6) <= 2 -> Pick(1..130) * 60000 + Near(0)
                         [] OTHER -> Rnd(8000000))
    [] OTHER -> (CASE Pick(1..10) <= 5 -> Pick({1, 2, 10, 11, 12, 13, 14, 23, 24, 25}) * 3600000 + Near(0)
                   [] OTHER -> Rnd(91000000))
When(x) ==
  CASE Cls = "short" -> (CASE Pick(1..3) = 1 -> Rnd(70000) [] Pick(1..2) = 1 -> Pick(2..65) * 1000 + Near(0) [] OTHER -> 60000 + Near(0))
    [] Cls = "mid" -> (CASE Pick(1..3) = 1 -> Rnd(4000000) [] Pick(1..2) = 1 -> Pick(1..65) * 60000 + Near(0) [] OTHER -> 3600000 + Near(0))
    [] OTHER -> (CASE Pick(1..3) = 1 -> Rnd(15000000) [] OTHER -> Pick(1..4) * 3600000 + Near(0))
Op(x) == P(<<"after", "after", "after", "at", "at", "run", "panic">>)
\* a few at one instant
Group(t, n) == [j \in 1..n |-> [op |-> Op(0), at |-> IF t < 0 THEN 0 ELSE t, k |-> nk + j, d |-> Delay(0)]]
Create == \E t \in {When(0)} : \E n \in {P(<<1, 1, 2, 5>>)} : ops' = ops \o Group(t, n) /\ nk' = nk + n
Target(x) == Pick({j \in 1..Len(ops) : ops[j].op \in {"after", "at"}})
\* before its creation (it has not been created then: nothing happens), in between, around the due time
Cancel == IF {j \in 1..Len(ops) : ops[j].op \in {"after", "at"}} = {} THEN Create
          ELSE \E o \in {ops[Target(0)]} : \E c \in {CASE Pick(1..2) = 1 -> o.at + o.d + P(<<-5000, -1000, -300, -200, -151, -150, -149, -101, -100, -99, -51, -50, -1, 0, 1, 300>>)
                                                        [] o.d > 1 -> o.at + Pick(0..o.d)
                                                        [] OTHER -> o.at} :
               ops' = Append(ops, [op |-> "cancel", at |-> IF c < 0 THEN 0 ELSE c, k |-> o.k, d |-> 0]) /\ UNCHANGED nk
Other == ops' = Append(ops, [op |-> "noop", at |-> IF Pick(1..2) = 1 THEN 500 ELSE 60500, k |-> 0, d |-> Pick({0, 100000, 7777777})]) /\ UNCHANGED nk
Burst == ops' = Append(ops, [op |-> "burst", at |-> Rnd(60000), k |-> P(<<100, 2047, 2048, 2500, 5000>>), d |-> Rnd(70000)]) /\ UNCHANGED nk
Step == ~done /\ Len(ops) < Depth /\ UNCHANGED done
        /\ (CASE Pick(1..3) = 1 -> Cancel [] Pick(1..15) = 1 -> Other [] Cls = "short" /\ Pick(1..40) = 1 -> Burst [] OTHER -> Create)
Finish == ~done /\ Len(ops) >= Depth /\ done' = TRUE /\ UNCHANGED <<ops, nk>> /\ Emit([ops |-> ops, manual |-> Pick(0..1), off |-> Pick(0..999)])
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
