------------------------------ MODULE LifeTrace ------------------------------
(* Validates traces of the life driver against the contract ConnLife.  Cfg: n connections, max, tr (sequence: the
   transport of each connection). *)
EXTENDS Integers, Sequences, FiniteSets, TraceLib
VARIABLES ph, kcid, may, must, cbs, run, srv, qs, full, acc, clearing
CsAll == 1..60
L == INSTANCE ConnLife WITH Cs <- CsAll
life == <<ph, kcid, may, must, cbs, run, srv, qs, full, acc, clearing>>
vars == <<tid, i, life>>
Init == TraceInit /\ L!LInit
Max == Cfg.max
Waits == {c \in 1..Cfg.n : Cfg.tr[c] # "ws"}
Num(x) == x \in 1..Cfg.n

TDial == IsEvent("dial") /\ L!Dial(E.c, Max)
TAcc == IsEvent("dialok") /\ L!Accepted(E.c)
TRefused == IsEvent("refused") /\ L!Refused(E.c)
TStartB == IsEvent("startb") /\ L!StartB(E.c, E.id, Max)
TStartE == IsEvent("starte") /\ L!StartE(E.c)
TMsg == IsEvent("msg") /\ L!Handle(E.c)
TEnd == IsEvent("endreq") /\ L!EndReq(E.c)
TClearB == IsEvent("clearb") /\ L!ClearReq
TClearE == IsEvent("cleare") /\ L!ClearEnd
TSStopB == IsEvent("sstopb") /\ L!SrvStopB
TSStopE == IsEvent("sstope") /\ L!SrvStopE
TStopB == IsEvent("stopb") /\ L!StopB(E.c)
TStopE == IsEvent("stope") /\ L!StopE(E.c)
TAddCb == IsEvent("addcb") /\ L!AddCb(E.c, E.n)
TAddedCb == IsEvent("addcbe") /\ L!AddedCb(E.c, E.n)
TRmCb == IsEvent("rmcb") /\ L!RmCb(E.c, E.n)
TRmedCb == IsEvent("rmcbe") /\ L!RmedCb(E.c, E.n)
TCb == IsEvent("cb") /\ L!Cb(E.c, E.n)
\* in the registry afterwards: never; transport closed: always
TGone == IsEvent("gone") /\ E.reg = FALSE /\ E.tr = TRUE /\ L!Gone(E.c)
TQB == IsEvent("qb") /\ L!QB(E.q)
TQE == /\ IsEvent("qe") /\ L!QE(E.q)
       /\ CASE E.kind = "list" -> L!ListOk(E.q, E.res)
            [] E.kind = "len" -> L!CountOk(E.q, E.res)
            [] E.kind = "get" -> L!LookupOk(E.q, E.c, E.res)
\* at the settle point nothing that must have happened is missing
TQuiet == IsEvent("quiet") /\ L!Quiet(Max, Waits) /\ UNCHANGED life
\* after Stop: the port can be bound again, and whoever connects is not served
TPort == IsEvent("port") /\ E.free = TRUE /\ L!SrvClosed
TLate == IsEvent("late") /\ UNCHANGED life
TFin == IsEvent("fin") /\ UNCHANGED life
Next == TDial \/ TAcc \/ TRefused \/ TStartB \/ TStartE \/ TMsg \/ TEnd \/ TClearB \/ TClearE \/ TSStopB \/ TSStopE \/ TStopB \/ TStopE
        \/ TAddCb \/ TAddedCb \/ TRmCb \/ TRmedCb \/ TCb \/ TGone \/ TQB \/ TQE \/ TQuiet \/ TPort \/ TLate \/ TFin
Spec == Init /\ [][Next]_vars
=============================================================================
