------------------------------- MODULE Router -------------------------------
(* The routing rules (C11).  Handlers are numbers; a route is the sequence of handlers an id selects.

   Registration: tbl maps registered ids to routes; common is the list of shared handlers; grp the groups.
     Slice mode: a route is common at that moment, then its group's handlers at that moment, then its own.
     Classic mode: a route is <<r>>, the router, with the stages 0 (pre), 1 (main), 2 (post).
   Running one message: rt its route, nx the next handler to start (classic: the next stage), stk the handlers that
   have started and not returned; a handler on the stack is "run" or "next" (inside an explicit next). *)
EXTENDS Integers, Sequences
VARIABLES tbl, common, grp, rt, nx, stk, pend
routerVars == <<tbl, common, grp, rt, nx, stk, pend>>
regVars == <<tbl, common, grp>>
runVars == <<rt, nx, stk, pend>>
Empty == [x \in {} |-> <<>>]
RtInit == tbl = Empty /\ common = <<>> /\ grp = Empty /\ rt = <<>> /\ nx = 1 /\ stk = <<>> /\ pend = -1

Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
RtUse(hs) == common' = common \o hs /\ UNCHANGED <<tbl, grp, rt, nx, stk, pend>>
RtGroup(g, lo, hi, hs) == grp' = Put(grp, g, [lo |-> lo, hi |-> hi, hs |-> hs]) /\ UNCHANGED <<tbl, common, rt, nx, stk, pend>>
RtGroupUse(g, hs) == grp' = [grp EXCEPT ![g].hs = @ \o hs] /\ UNCHANGED <<tbl, common, rt, nx, stk, pend>>
\* g = 0: not in a group.  ok: whether the registration was accepted
CanReg(g, id) == id \notin DOMAIN tbl /\ (IF g = 0 THEN TRUE ELSE id >= grp[g].lo /\ id <= grp[g].hi)
RtReg(g, id, hs, ok) ==
  /\ ok = CanReg(g, id)
  /\ tbl' = (IF ok THEN Put(tbl, id, common \o (IF g = 0 THEN <<>> ELSE grp[g].hs) \o hs) ELSE tbl)
  /\ UNCHANGED <<common, grp, rt, nx, stk, pend>>
RtRegClassic(id, r, ok) ==
  /\ ok = (id \notin DOMAIN tbl) /\ tbl' = (IF ok THEN Put(tbl, id, <<r>>) ELSE tbl)
  /\ UNCHANGED <<common, grp, rt, nx, stk, pend>>

\* a message with this id is taken up
Idle == stk = <<>> /\ rt = <<>>
RtTake(id) == Idle /\ id \in DOMAIN tbl /\ rt' = tbl[id] /\ nx' = 1 /\ stk' = <<>> /\ pend' = -1 /\ UNCHANGED regVars
\* ---- slice mode
Top == stk[Len(stk)]
MayStart == nx <= Len(rt) /\ (IF stk = <<>> THEN TRUE ELSE Top.in = "next")
RtBegin(h) == MayStart /\ rt[nx] = h /\ stk' = Append(stk, [h |-> h, in |-> "run"]) /\ nx' = nx + 1 /\ UNCHANGED <<rt, pend>> /\ UNCHANGED regVars
Running(h) == stk # <<>> /\ Top.h = h /\ Top.in = "run"
RtNext(h) == Running(h) /\ stk' = [stk EXCEPT ![Len(stk)].in = "next"] /\ UNCHANGED <<rt, nx, pend>> /\ UNCHANGED regVars
\* an explicit next returns only when everything not yet started and not skipped has run
RtNextRet(h) == stk # <<>> /\ Top.h = h /\ Top.in = "next" /\ nx > Len(rt) /\ stk' = [stk EXCEPT ![Len(stk)].in = "run"] /\ UNCHANGED <<rt, nx, pend>> /\ UNCHANGED regVars
RtAbort(h) == Running(h) /\ nx' = Len(rt) + 1 /\ UNCHANGED <<rt, stk, pend>> /\ UNCHANGED regVars
RtEnd(h) == Running(h) /\ stk' = SubSeq(stk, 1, Len(stk) - 1) /\ UNCHANGED <<rt, nx, pend>> /\ UNCHANGED regVars
\* a panic ends the message
RtPanic(h) == Running(h) /\ stk' = <<>> /\ nx' = Len(rt) + 1 /\ UNCHANGED <<rt, pend>> /\ UNCHANGED regVars
RtOver == stk = <<>> /\ nx > Len(rt)
\* ---- classic mode: nx - 1 is the next stage; pend: the stage the running handler has asked for (3: abort), -1: none
RcBegin(r, s) == stk = <<>> /\ rt # <<>> /\ r = rt[1] /\ s = nx - 1 /\ s \in 0..2 /\ stk' = <<[h |-> s, in |-> "run"]>> /\ pend' = -1 /\ UNCHANGED <<rt, nx>> /\ UNCHANGED regVars
RcAsk(s, x) == stk # <<>> /\ Top.h = s /\ pend' = x /\ UNCHANGED <<rt, nx, stk>> /\ UNCHANGED regVars
RcEnd(s) == stk # <<>> /\ Top.h = s /\ nx' = (IF pend = -1 THEN s + 2 ELSE pend + 1) /\ stk' = <<>> /\ pend' = -1 /\ UNCHANGED rt /\ UNCHANGED regVars
RcPanic(s) == stk # <<>> /\ Top.h = s /\ nx' = 4 /\ stk' = <<>> /\ UNCHANGED <<rt, pend>> /\ UNCHANGED regVars
RcOver == stk = <<>> /\ rt # <<>> /\ nx > 3
RtDone == rt' = <<>> /\ nx' = 1 /\ stk' = <<>> /\ pend' = -1 /\ UNCHANGED regVars
=============================================================================
