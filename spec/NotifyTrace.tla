------------------------------ MODULE NotifyTrace ------------------------------
(* Calls carry what they returned and what was received.  The effect of a call on one id happens at an instant between call and
   return; it is placed only where it is needed, just before some call returns. *)
EXTENDS Notify, TraceLib
VARIABLES todo
vars == <<tid, i, reg, wide, todo>>
Init == TraceInit /\ NoInit(Cfg.ni) /\ todo = {}
Wide(kind) == kind \in {"all", "num"}
SoftOf(x) == {x.soft[j] : j \in DOMAIN x.soft}
TCall == IsEvent("call") /\ (IF Wide(E.kind) THEN NoWideB(E.k) /\ UNCHANGED todo ELSE todo' = todo \cup {E} /\ UNCHANGED notifyVars)
TRetWide == IsEvent("retw") /\ (IF E.kind = "all" THEN NoAllE(E.k, E.del, SoftOf(E)) ELSE NoNumE(E.k, E.r)) /\ UNCHANGED todo
TRet == IsEvent("ret") /\ {x \in todo : x.k = E.k} = {} /\ UNCHANGED <<notifyVars, todo>>
Effect(x) == CASE x.kind = "set" -> NoSet(x.n, x.c)
               [] x.kind = "del" -> NoDel(x.n)
               [] x.kind = "has" -> NoHas(x.n, x.r) /\ UNCHANGED notifyVars
               [] x.kind = "get" -> NoGet(x.n, x.r) /\ UNCHANGED notifyVars
               [] x.kind = "one" -> NoOne(x.n, x.r, x.del, SoftOf(x)) /\ UNCHANGED notifyVars
Lin == More /\ Ev[i].op \in {"ret", "retw"} /\ Silent /\ \E x \in todo : Effect(x) /\ todo' = todo \ {x}
Next == TCall \/ TRetWide \/ TRet \/ Lin
Spec == Init /\ [][Next]_vars
=============================================================================
