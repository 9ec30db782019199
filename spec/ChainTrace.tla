------------------------------ MODULE ChainTrace ------------------------------
(* One trace per message; cfg: from, n, tag0 and resp0 (what the reader hands to the chain). *)
EXTENDS Chain, TraceLib
vars == <<tid, i, pos, stk, req, ret, disp>>
R == [tag |-> E.tag, resp |-> E.resp]
Init == TraceInit /\ ChInit(Traces[tid].cfg.from, [tag |-> "q0", resp |-> "nil"])
TEnter == IsEvent("enter") /\ ChEnter(E.p, R, Cfg.n)
TPass == IsEvent("pass") /\ ChPass(E.p, R, Cfg.n)
TBack == IsEvent("back") /\ ChBack(E.p, E.v, Cfg.n)
TReturn == IsEvent("return") /\ ChReturn(E.p, E.v)
THandle == IsEvent("handle") /\ ChHandle(R)
TSettle == IsEvent("settle") /\ ChOver /\ UNCHANGED chainVars
Next == TEnter \/ TPass \/ TBack \/ TReturn \/ THandle \/ TSettle
Spec == Init /\ [][Next]_vars
=============================================================================
