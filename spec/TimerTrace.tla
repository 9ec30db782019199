------------------------------ MODULE TimerTrace ------------------------------
EXTENDS Timer, TraceLib
vars == <<tid, i, due, from, st, off, now>>
Init == TraceInit /\ TmInit
TSet == IsEvent("set") /\ TmSet(E.k, E.due, E.t)
TMade == IsEvent("made") /\ TmMade(E.k, E.ok, E.t)
TFire == IsEvent("fire") /\ TmFire(E.k, E.t)
TCancel == IsEvent("cancel") /\ TmCancel(E.k, E.t)
TCancelled == IsEvent("cancelled") /\ TmCancelled(E.k, E.t)
TNoop == IsEvent("noop") /\ TmNoop(E.t)
TBurst == IsEvent("burst") /\ TmBurst(E.n, E.due, E.c, E.runs, E.again, E.lo, E.hi, E.t)
Next == TSet \/ TMade \/ TFire \/ TCancel \/ TCancelled \/ TNoop \/ TBurst
Spec == Init /\ [][Next]_vars
=============================================================================
