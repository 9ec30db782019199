------------------------------ MODULE SendTrace ------------------------------
(* Validates traces of the send driver against the contract Send. *)
EXTENDS Send, TraceLib
vars == <<tid, i, calls, got, cst>>
Init == TraceInit /\ SdInit
TCall == IsEvent("call") /\ SdCall(E.n, E.g, E.p)
TRet == IsEvent("ret") /\ SdRet(E.n, E.r)
TRecv == IsEvent("recv") /\ SdRecv(E.n)
TClosing == IsEvent("closing") /\ SdClosing
TEnded == IsEvent("ended") /\ SdEnded
\* the stream ended in the middle of a frame: only if something has begun to end the connection
TCut == IsEvent("cut") /\ cst # "open" /\ UNCHANGED sendVars
\* everything has had time to happen on an open connection
TSettle == IsEvent("settle") /\ cst = "open" /\ Returned /\ Delivered /\ UNCHANGED sendVars
\* a stopped connection has been torn down: all its calls have returned, its stop hook has run, the registry has forgotten
\* it and its transport is closed
TDown == IsEvent("down") /\ cst = "ended" /\ Returned /\ E.hook = 1 /\ E.reg = FALSE /\ E.tr = TRUE /\ UNCHANGED sendVars
TFin == IsEvent("fin") /\ Returned /\ UNCHANGED sendVars
Next == TCall \/ TRet \/ TRecv \/ TClosing \/ TEnded \/ TCut \/ TSettle \/ TDown \/ TFin
Spec == Init /\ [][Next]_vars
=============================================================================
