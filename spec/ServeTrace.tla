----------------------------- MODULE ServeTrace -----------------------------
(* Validates traces of the dispatch driver against the contract Serve.  Beyond the messages of the peers: tasks put
   on a connection's worker, asynchronous operations and timers (they are submitted with a number and must run exactly
   once, panicking or not), and connections whose hooks panic (hp: the start hook did; they may be closed). *)
EXTENDS Serve, TraceLib
VARIABLES hp, aux, ran
vars == <<tid, i, sent, begun, act, last, wk, busy, seen, st, hp, aux, ran>>
ax == <<hp, aux, ran>>
Init == TraceInit /\ SvInit(1..Traces[tid].cfg.n) /\ hp = {} /\ aux = {} /\ ran = {}

TStart == IsEvent("start") /\ SvStart(E.c) /\ UNCHANGED ax
THookPanic == IsEvent("hookpanic") /\ SvStart(E.c) /\ hp' = hp \cup {E.c} /\ UNCHANGED <<aux, ran>>
TSend == IsEvent("send") /\ SvSend(E.c, E.kind) /\ UNCHANGED ax
TBegin == IsEvent("begin") /\ SvBegin(E.c, E.k, E.w, Cfg.pool, Cfg.bound, Cfg.maxw, Cfg.fixed) /\ UNCHANGED ax
TEnd == IsEvent("end") /\ SvEnd(E.c, E.k, E.w, Cfg.pool) /\ UNCHANGED ax
TClosing == IsEvent("closing") /\ SvClosing(E.c) /\ UNCHANGED ax
TStop == /\ IsEvent("stop") /\ UNCHANGED ax
         /\ \/ SvStop(E.c)
            \/ E.c \in hp /\ st[E.c] = "open" /\ st' = [st EXCEPT ![E.c] = "closed"] /\ UNCHANGED <<sent, begun, act, last, wk, busy, seen>>
TSubmit == IsEvent("submit") /\ E.n \notin aux /\ aux' = aux \cup {E.n} /\ UNCHANGED <<hp, ran>> /\ UNCHANGED serveVars
\* a task of a connection runs on its worker, in turn with its messages
TRan == /\ IsEvent("ran") /\ E.n \in aux \ ran /\ ran' = ran \cup {E.n}
        /\ (IF E.c = 0 THEN TRUE ELSE wk[E.c] \in {0, E.w} /\ act[E.c] = {} /\ E.w \notin busy)
        /\ UNCHANGED <<hp, aux>> /\ UNCHANGED serveVars
\* everything of these connections has had time to be handled; auxiliary work too
TSettle == /\ IsEvent("settle") /\ UNCHANGED serveVars /\ UNCHANGED ax
           /\ \A j \in 1..Len(E.cs) : Complete(E.cs[j]) \/ (E.cs[j] \in hp /\ st[E.cs[j]] = "closed" /\ act[E.cs[j]] = {})
           /\ E.all => aux = ran
\* a connection that has ended is gone from the registry and its transport is closed
TGone == IsEvent("gone") /\ st[E.c] = "closed" /\ E.reg = FALSE /\ E.tr = TRUE /\ UNCHANGED serveVars /\ UNCHANGED ax
TFin == IsEvent("fin") /\ UNCHANGED serveVars /\ UNCHANGED ax
Next == TStart \/ THookPanic \/ TSend \/ TBegin \/ TEnd \/ TClosing \/ TStop \/ TSubmit \/ TRan \/ TSettle \/ TGone \/ TFin
Spec == Init /\ [][Next]_vars
=============================================================================
