------------------------------ MODULE AsyncTrace ------------------------------
EXTENDS Async, TraceLib
vars == <<tid, i, id, pred, os, subd, cand, fin, reg, regd, val, done, busy, wk>>
Init == TraceInit /\ AsInit(Cfg.nr, Cfg.nc)
TSub == IsEvent("sub") /\ AsSub(E.o, E.id)
TSubd == IsEvent("subd") /\ AsSubd(E.o)
TOpB == IsEvent("opb") /\ AsOpB(E.o)
TOpE == IsEvent("ope") /\ AsOpE(E.o)
TBurst == IsEvent("burst") /\ AsBurst(E.n, E.runs)
TSetB == IsEvent("setb") /\ AsSetB(E.r, E.v)
TSetE == IsEvent("sete") /\ AsSetE(E.r)
TOnB == IsEvent("onb") /\ AsOnB(E.r, E.f)
TOnE == IsEvent("one") /\ AsOnE(E.r)
TGet == IsEvent("get") /\ AsGet(E.r, E.v, E.before)
TCompB == IsEvent("compb") /\ AsCompB(E.r, E.f, E.v, E.c, E.w)
TCompE == IsEvent("compe") /\ AsCompE(E.c)
TMsgB == IsEvent("msgb") /\ AsMsgB(E.c, E.w)
TMsgE == IsEvent("msge") /\ AsMsgE(E.c)
TQuiet == IsEvent("quiet") /\ AsQuiet
Next == TSub \/ TSubd \/ TOpB \/ TOpE \/ TBurst \/ TSetB \/ TSetE \/ TOnB \/ TOnE \/ TGet \/ TCompB \/ TCompE \/ TMsgB \/ TMsgE \/ TQuiet
Spec == Init /\ [][Next]_vars
=============================================================================
