------------------------------ MODULE MapTrace ------------------------------
(* Linearizability of the recorded history of one key (cfg: start - its value at the beginning).  A call event carries the
   result that the call returned later; between call and ret there must be an instant at which it takes effect. *)
EXTENDS MapOps, Sequences, TraceLib
VARIABLES v, todo          \* todo: the calls begun whose effect has not happened yet; done: effect has happened, not returned
vars == <<tid, i, v, todo>>
Init == TraceInit /\ v = Traces[tid].cfg.start /\ todo = {}
TCall == IsEvent("call") /\ todo' = todo \cup {[id |-> E.id, kind |-> E.kind, a |-> E.a, r |-> E.r]} /\ UNCHANGED v
TRet == IsEvent("ret") /\ (\A x \in todo : x.id # E.id) /\ UNCHANGED <<v, todo>>
\* effects are placed only where they are needed: just before some call returns
Lin == /\ More /\ Ev[i].op = "ret"
       /\ \E x \in todo : Allowed(x.kind, v, x.a, x.r) /\ v' = After(x.kind, v, x.a) /\ todo' = todo \ {x}
       /\ Silent
Next == TCall \/ TRet \/ Lin
Spec == Init /\ [][Next]_vars
=============================================================================
