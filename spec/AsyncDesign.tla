----------------------------- MODULE AsyncDesign -----------------------------
(* The rendezvous as implemented: setting a result and registering a completion each note themselves first (once) and then
   look whether both are there; Locked = TRUE: noting, and looking-and-claiming, are single steps; FALSE: every access to a
   field is a step of its own.  One result, one connection; operations run on per-id workers with queues, the completion on the
   connection's worker.  Checked step by step against the contract Async. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Setters, Regs, Ops, Locked
VARIABLES pc, has, obj, hasf, fn, called, loc, q, oq, running, ost,
          id, pred, os, subd, cand, fin, reg, regd, val, done, busy, wk
A == INSTANCE Async
av == <<id, pred, os, subd, cand, fin, reg, regd, val, done, busy, wk>>
iv == <<has, obj, hasf, fn, called, loc, q, oq, running, ost>>
vars == <<pc, iv, av>>
T == Setters \cup Regs
Init == /\ pc = [t \in T |-> "idle"] /\ has = FALSE /\ obj = -1 /\ hasf = FALSE /\ fn = -1 /\ called = FALSE /\ loc = [t \in T |-> FALSE]
        /\ q = <<>> /\ oq = [n \in {0, 1} |-> <<>>] /\ running = [n \in {0, 1} |-> 0] /\ ost = [o \in Ops |-> "new"] /\ A!AsInit(1, 1)
Call(t) == pc[t] = "idle" /\ pc' = [pc EXCEPT ![t] = "note"] /\ UNCHANGED iv /\ (IF t \in Setters THEN A!AsSetB(1, t) ELSE A!AsOnB(1, t))
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
\* note oneself
Note(t) == /\ pc[t] = "note" /\ UNCHANGED <<av, loc, called, q, oq, running, ost>>
           /\ IF t \in Setters
              THEN UNCHANGED <<hasf, fn>> /\ (IF has THEN Go(t, "ret") /\ UNCHANGED <<has, obj>>
                                              ELSE IF Locked THEN Go(t, "look") /\ has' = TRUE /\ obj' = t ELSE Go(t, "note2") /\ UNCHANGED <<has, obj>>)
              ELSE UNCHANGED <<has, obj>> /\ (IF hasf THEN Go(t, "ret") /\ UNCHANGED <<hasf, fn>>
                                              ELSE IF Locked THEN Go(t, "look") /\ hasf' = TRUE /\ fn' = t ELSE Go(t, "note2") /\ UNCHANGED <<hasf, fn>>)
Note2(t) == /\ pc[t] = "note2" /\ Go(t, "look") /\ UNCHANGED <<av, loc, called, q, oq, running, ost>>
            /\ IF t \in Setters THEN has' = TRUE /\ obj' = t /\ UNCHANGED <<hasf, fn>> ELSE hasf' = TRUE /\ fn' = t /\ UNCHANGED <<has, obj>>
Look(t) == /\ pc[t] = "look" /\ UNCHANGED <<av, has, obj, hasf, fn, loc, oq, running, ost>>
           /\ IF has /\ fn # -1 /\ ~called
              THEN IF Locked THEN called' = TRUE /\ Go(t, "ret") /\ q' = Append(q, fn) ELSE Go(t, "claim") /\ UNCHANGED <<called, q>>
              ELSE Go(t, "ret") /\ UNCHANGED <<called, q>>
Claim(t) == pc[t] = "claim" /\ called' = TRUE /\ q' = Append(q, fn) /\ Go(t, "ret") /\ UNCHANGED <<av, has, obj, hasf, fn, loc, oq, running, ost>>
Ret(t) == pc[t] = "ret" /\ Go(t, "done") /\ UNCHANGED iv /\ (IF t \in Setters THEN A!AsSetE(1) ELSE A!AsOnE(1))
\* the connection's worker
CompB == /\ q # <<>> /\ busy[1] = FALSE /\ q' = Tail(q) /\ UNCHANGED <<pc, has, obj, hasf, fn, called, loc, oq, running, ost>>
         /\ Assert(~done[1] /\ Head(q) \in reg[1] /\ A!Sees(1, obj), <<"completion not allowed", Head(q), obj, done, reg, cand, val>>)
         /\ A!AsCompB(1, Head(q), obj, 1, 7)
CompE == busy[1] = TRUE /\ A!AsCompE(1) /\ UNCHANGED <<pc, iv>>
\* operations: o's id is o % 2
Sub(o) == ost[o] = "new" /\ ost' = [ost EXCEPT ![o] = "call"] /\ A!AsSub(o, o % 2) /\ UNCHANGED <<pc, has, obj, hasf, fn, called, loc, q, oq, running>>
Enq(o) == ost[o] = "call" /\ ost' = [ost EXCEPT ![o] = "in"] /\ oq' = [oq EXCEPT ![o % 2] = Append(@, o)] /\ UNCHANGED <<pc, av, has, obj, hasf, fn, called, loc, q, running>>
Subd(o) == ost[o] = "in" /\ o \notin subd /\ A!AsSubd(o) /\ UNCHANGED <<pc, iv>>
OpB(n) == /\ running[n] = 0 /\ oq[n] # <<>> /\ running' = [running EXCEPT ![n] = Head(oq[n])] /\ oq' = [oq EXCEPT ![n] = Tail(@)]
          /\ Assert({p \in pred[Head(oq[n])] : os[p] # "end"} = {}, "out of order") /\ A!AsOpB(Head(oq[n])) /\ UNCHANGED <<pc, has, obj, hasf, fn, called, loc, q, ost>>
OpE(n) == running[n] # 0 /\ A!AsOpE(running[n]) /\ running' = [running EXCEPT ![n] = 0] /\ UNCHANGED <<pc, has, obj, hasf, fn, called, loc, q, oq, ost>>
Next == (\E t \in T : Call(t) \/ Note(t) \/ Note2(t) \/ Look(t) \/ Claim(t) \/ Ret(t)) \/ CompB \/ CompE \/ (\E o \in Ops : Sub(o) \/ Enq(o) \/ Subd(o)) \/ (\E n \in {0, 1} : OpB(n) \/ OpE(n))
Spec == Init /\ [][Next]_vars
\* when nothing can happen any more, everything has happened
Rest == (~ENABLED Next) => /\ \A o \in Ops : o \in DOMAIN os /\ os[o] = "end"
                           /\ ((Setters # {} /\ Regs # {}) => done[1]) /\ ~busy[1]
=============================================================================
