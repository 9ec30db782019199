---------------------------- MODULE ClientLifeTrace ----------------------------
EXTENDS ClientLife, TraceLib
vars == <<tid, i, out, cs, nstop, silent>>
Init == TraceInit /\ ClInit
TAtt == IsEvent("att") /\ ClAtt(E.n, E.mode)
TAttRet == IsEvent("attd") /\ ClAttRet(E.n)
TRelease == IsEvent("release") /\ ClRelease
TBreak == IsEvent("break") /\ ClBreak
TErr == IsEvent("err") /\ (ClErr \/ ClErrReset)
TUp == IsEvent("up") /\ ClUp(E.k)
TStartB == IsEvent("startb") /\ ClStartB(E.k)
TStartE == IsEvent("starte") /\ ClStartE(E.k)
TStopB == IsEvent("stopb") /\ ClStopB(E.k)
TStopE == IsEvent("stope") /\ ClStopE(E.k)
TEof == IsEvent("eof") /\ ClEof(E.k)
TSend == IsEvent("send") /\ ClSend(E.k)
TGot == IsEvent("got") /\ ClGot(E.k, E.j)
TPeerEnds == IsEvent("pend") /\ ClPeerEnds(E.k, E.how)
TStop == IsEvent("stop") /\ ClStop
TStopped == IsEvent("stopped") /\ ClStopped(E.ms)
TQuiet == IsEvent("quiet") /\ ClQuiet
Next == TAtt \/ TAttRet \/ TRelease \/ TBreak \/ TErr \/ TUp \/ TStartB \/ TStartE \/ TStopB \/ TStopE \/ TEof \/ TSend \/ TGot \/ TPeerEnds \/ TStop \/ TStopped \/ TQuiet
Spec == Init /\ [][Next]_vars
=============================================================================
