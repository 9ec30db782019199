----------------------------- MODULE RouterTrace -----------------------------
(* Validates traces of the routing driver: registrations, then the messages of one connection, handled one at a time. *)
EXTENDS Router, TraceLib
VARIABLES msgs, cur
vars == <<tid, i, tbl, common, grp, rt, nx, stk, pend, msgs, cur>>
\* handler lists in the trace are ranges <<first, count>>
Range(r) == [k \in 1..r[2] |-> r[1] + k - 1]
Init == TraceInit /\ RtInit /\ msgs = <<>> /\ cur = 0
mv == <<msgs, cur>>
TUse == IsEvent("use") /\ RtUse(Range(E.hs)) /\ UNCHANGED mv
TGroup == IsEvent("group") /\ RtGroup(E.g, E.lo, E.hi, Range(E.hs)) /\ UNCHANGED mv
TGUse == IsEvent("guse") /\ RtGroupUse(E.g, Range(E.hs)) /\ UNCHANGED mv
TReg == IsEvent("reg") /\ (IF Cfg.slices THEN RtReg(E.g, E.id, Range(E.hs), E.ok) ELSE RtRegClassic(E.id, E.hs[1], E.ok)) /\ UNCHANGED mv
TSend == IsEvent("send") /\ msgs' = Append(msgs, E.id) /\ UNCHANGED cur /\ UNCHANGED routerVars
Over == IF Cfg.slices THEN RtOver ELSE RcOver
\* the next message whose id is registered (and whose route is not empty) is taken up
Runs(k) == msgs[k] \in DOMAIN tbl /\ tbl[msgs[k]] # <<>>
Take == /\ More /\ Ev[i].op = "begin" /\ Idle /\ Ev[i].m > cur /\ Ev[i].m <= Len(msgs)
        /\ Runs(Ev[i].m) /\ \A k \in (cur + 1)..(Ev[i].m - 1) : ~Runs(k)
        /\ RtTake(msgs[Ev[i].m]) /\ cur' = Ev[i].m /\ UNCHANGED msgs /\ Silent
Finish == rt # <<>> /\ Over /\ RtDone /\ UNCHANGED mv /\ Silent
Mine == rt # <<>> /\ E.m = cur
TBegin == IsEvent("begin") /\ Mine /\ (IF Cfg.slices THEN RtBegin(E.h) ELSE RcBegin(E.h, E.s)) /\ UNCHANGED mv
TEnd == IsEvent("end") /\ Mine /\ (IF Cfg.slices THEN RtEnd(E.h) ELSE RcEnd(E.s)) /\ UNCHANGED mv
TNext == IsEvent("next") /\ Mine /\ RtNext(E.h) /\ UNCHANGED mv
TNextRet == IsEvent("nextret") /\ Mine /\ RtNextRet(E.h) /\ UNCHANGED mv
TAbort == IsEvent("abort") /\ Mine /\ (IF Cfg.slices THEN RtAbort(E.h) ELSE RcAsk(E.s, 3)) /\ UNCHANGED mv
TGoto == IsEvent("goto") /\ Mine /\ RcAsk(E.s, E.to) /\ UNCHANGED mv
TPanic == IsEvent("panic") /\ Mine /\ (IF Cfg.slices THEN RtPanic(E.h) ELSE RcPanic(E.s)) /\ UNCHANGED mv
\* every message has had time to run
TSettle == IsEvent("settle") /\ Idle /\ (\A k \in (cur + 1)..Len(msgs) : ~Runs(k)) /\ UNCHANGED mv /\ UNCHANGED routerVars
Next == TUse \/ TGroup \/ TGUse \/ TReg \/ TSend \/ Take \/ Finish \/ TBegin \/ TEnd \/ TNext \/ TNextRet \/ TAbort \/ TGoto \/ TPanic \/ TSettle
Spec == Init /\ [][Next]_vars
=============================================================================
