------------------------------ MODULE SnowTrace ------------------------------
EXTENDS Snow, TraceLib
vars == <<tid, i, top, all, low, peak, now>>
Init == TraceInit /\ SnInit
TNew == IsEvent("new") /\ SnNew(E.g, E.w, E.ok)
TClock == IsEvent("clock") /\ SnClock(E.from, E.to)
TCall == IsEvent("call") /\ SnCall(E.t, E.g, E.c)
TId == IsEvent("id") /\ SnId(E.t, E.id)
TErr == IsEvent("err") /\ SnErr(E.t)
TBatch == IsEvent("batch") /\ SnBatch(E.g, E.c, E.e, E.runs)
Next == TNew \/ TClock \/ TCall \/ TId \/ TErr \/ TBatch
Spec == Init /\ [][Next]_vars
=============================================================================
