------------------------------ MODULE ReqTrace ------------------------------
(* One trace per message; cfg: id, pay, resp - what the peer sent and the interceptor added; observations also say whether the
   connection was the one the message came from. *)
EXTENDS Req, TraceLib
vars == <<tid, i, id, pay, resp, ctx, copies>>
Init == TraceInit /\ RqInit(Traces[tid].cfg.id, Traces[tid].cfg.pay, Traces[tid].cfg.resp)
\* an empty context is recorded as {} which reads as the empty record or the empty sequence
C(x) == IF x = <<>> THEN [y \in {} |-> ""] ELSE x
TObs == IsEvent("obs") /\ E.conn /\ RqObs(E.id, E.pay, E.resp, C(E.ctx))
TSet == IsEvent("set") /\ RqSet(E.k, E.v)
TResp == IsEvent("resp") /\ RqResp(E.v)
TId == IsEvent("id") /\ RqId(E.v)
TPay == IsEvent("pay") /\ RqPay(E.v)
TCopy == IsEvent("copy") /\ RqCopy
TCObs == IsEvent("cobs") /\ RqCopyObs(E.j, E.id, E.pay, E.resp, C(E.ctx))
TCCopy == IsEvent("ccopy") /\ RqCopyCopy(E.j)
TCSet == IsEvent("cset") /\ RqCopySet(E.j, E.k, E.v)
Next == TObs \/ TSet \/ TResp \/ TId \/ TPay \/ TCopy \/ TCObs \/ TCSet \/ TCCopy
Spec == Init /\ [][Next]_vars
=============================================================================
