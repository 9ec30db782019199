------------------------------- MODULE Timer -------------------------------
(* Timers (C15).  Times in milliseconds.
     due[k]   when timer k is to fire;   st[k]: "set", "fired", "off" (cancelled), "dropping" (a cancel call is in progress)
     off[k]   when the cancel call returned;  from[k]  when it was created;  now: the time of the last event
   Every event carries its time; time does not pass a set timer's deadline before it has fired. *)
EXTENDS Integers, Sequences
VARIABLES due, from, st, off, now
timerVars == <<due, from, st, off, now>>
Slack == 100
Empty == [x \in {} |-> 0]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
TmInit == due = Empty /\ from = Empty /\ st = [x \in {} |-> "set"] /\ off = Empty /\ now = 0
Late(k, t) == st[k] = "set" /\ (IF due[k] > from[k] THEN due[k] ELSE from[k]) + Slack < t
At(t) == /\ t >= now /\ now' = t
         /\ {k \in DOMAIN st : Late(k, t)} = {}
TmSet(k, d, t) == At(t) /\ k \notin DOMAIN st /\ due' = Put(due, k, d) /\ from' = Put(from, k, t) /\ st' = Put(st, k, "set") /\ UNCHANGED off
\* the call that created it has returned
TmMade(k, ok, t) == At(t) /\ ok /\ k \in DOMAIN st /\ UNCHANGED <<due, from, st, off>>
\* a timer that is being triggered at the very instant of its cancellation may still run
TmFire(k, t) == At(t) /\ k \in DOMAIN st /\ t >= due[k] - Slack
                /\ (IF st[k] = "off" THEN off[k] = t ELSE st[k] \in {"set", "dropping"})
                /\ st' = [st EXCEPT ![k] = "fired"] /\ UNCHANGED <<due, from, off>>
TmCancel(k, t) == At(t) /\ k \in DOMAIN st /\ st' = (IF st[k] = "set" THEN [st EXCEPT ![k] = "dropping"] ELSE st) /\ UNCHANGED <<due, from, off>>
TmCancelled(k, t) == At(t) /\ st' = (IF st[k] = "dropping" THEN [st EXCEPT ![k] = "off"] ELSE st) /\ off' = Put(off, k, t) /\ UNCHANGED <<due, from>>
\* cancelling what does not exist has no effect
TmNoop(t) == At(t) /\ UNCHANGED <<due, from, st, off>>
\* many timers with one due time, judged at the end: which numbers fired (runs), how often any fired again, first and last time
TmBurst(n, d, c, runs, again, lo, hi, t) ==
  /\ At(t) /\ UNCHANGED <<due, from, st, off>>
  /\ runs = <<<<1, n>>>> /\ again = 0 /\ lo >= d - Slack /\ hi <= (IF d > c THEN d ELSE c) + Slack
=============================================================================
