----------------------------- MODULE TimeWheel -----------------------------
(* The implementation: wheels of increasing granularity (level 1 the finest), each turning on its own every Iv[l] time units,
   Sc[l] slots; a timer is put on the coarsest wheel whose interval fits into its remaining delay; a turn moves the timers of
   the current and of the next slot; the scheduler polls the current slot of the finest wheel every time unit and takes what
   is due within Window.  Everything due at one instant happens in any order.  Checked: no timer late or early, none lost,
   none fires after its cancellation; FollowNext = FALSE: a turn moves only the timers of the current slot. *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Timers, Horizon, MaxDelay, Window, FollowNext, Cancels
L == 3
Iv == <<4, 12, 24>>
Sc == <<3, 2, 2>>
VARIABLES now, cur, tick, poll, due, pos, st
vars == <<now, cur, tick, poll, due, pos, st>>
None == <<0, 0>>
Init == /\ now = 0 /\ cur = [l \in 1..L |-> 0] /\ tick = Iv /\ poll = 0
        /\ due = [k \in Timers |-> -1] /\ pos = [k \in Timers |-> None] /\ st = [k \in Timers |-> "new"]
\* where a timer goes, offered to wheel l at time now with due time d; force: by a turn of that very wheel
RECURSIVE Place(_, _, _)
Place(l, d, force) == LET rem == d - now IN
  IF rem >= Iv[l] THEN <<l, (cur[l] + rem \div Iv[l]) % Sc[l]>>
  ELSE IF l = 1 THEN (IF force THEN <<1, (cur[1] + 1) % Sc[1]>> ELSE <<1, cur[1]>>)
  ELSE Place(l - 1, d, FALSE)
Create(k) == \E d \in 0..MaxDelay : st[k] = "new" /\ now < Horizon - MaxDelay - 4 /\ due' = [due EXCEPT ![k] = now + d] /\ pos' = [pos EXCEPT ![k] = Place(L, now + d, FALSE)]
                /\ st' = [st EXCEPT ![k] = "set"] /\ UNCHANGED <<now, cur, tick, poll>>
\* all timers of the current slot, then all timers then in the next slot, are placed again
Turn(l) == /\ tick[l] = now
           /\ LET s0 == <<l, cur[l]>>  s1 == <<l, (cur[l] + 1) % Sc[l]>>
                  p1 == [k \in Timers |-> IF st[k] = "set" /\ pos[k] = s0 THEN Place(l, due[k], TRUE) ELSE pos[k]]
                  p2 == [k \in Timers |-> IF FollowNext /\ st[k] = "set" /\ p1[k] = s1 THEN Place(l, due[k], TRUE) ELSE p1[k]]
              IN pos' = p2
           /\ cur' = [cur EXCEPT ![l] = (@ + 1) % Sc[l]] /\ tick' = [tick EXCEPT ![l] = @ + Iv[l]] /\ UNCHANGED <<now, poll, due, st>>
Poll == /\ poll = now /\ poll' = now + 1
        /\ LET take == {k \in Timers : st[k] = "set" /\ pos[k] = <<1, cur[1]>> /\ due[k] - now < Window} IN st' = [k \in Timers |-> IF k \in take THEN "fired" ELSE st[k]]
        /\ UNCHANGED <<now, cur, tick, due, pos>>
Cancel(k) == Cancels /\ st[k] = "set" /\ st' = [st EXCEPT ![k] = "off"] /\ UNCHANGED <<now, cur, tick, poll, due, pos>>
Advance == now < Horizon /\ poll > now /\ (\A l \in 1..L : tick[l] > now) /\ now' = now + 1 /\ UNCHANGED <<cur, tick, poll, due, pos, st>>
Next == (\E k \in Timers : Create(k) \/ Cancel(k)) \/ (\E l \in 1..L : Turn(l)) \/ Poll \/ Advance
Spec == Init /\ [][Next]_vars
\* at most one poll late (and no earlier than Window, by construction of Poll)
OnTime == \A k \in Timers : st[k] = "set" => now <= due[k] + 1
=============================================================================
