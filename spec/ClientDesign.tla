----------------------------- MODULE ClientDesign -----------------------------
(* The client as implemented: each (re)start makes a run with a token of its own; the run connects, installs its connection and
   starts it; Stop takes the token and the connection, then ends the connection.  Atomic = FALSE: installing does not look at the
   token (which is read later), and Stop reads the connection apart from taking the token.  Checked against the contract ClientLife. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Stoppers, MaxStop, MaxEnd, Atomic
VARIABLES natt, call, mode, pc, dead, tok, conn, sp, sc, snap, busy, nst, pe, closed, out, cs, nstop, silent
C == INSTANCE ClientLife
dv == <<natt, call, mode, pc, dead, tok, conn, sp, sc, snap, busy, nst, pe, closed>>
cv == <<out, cs, nstop, silent>>
vars == <<dv, cv>>
Init == /\ natt = 0 /\ call = 0 /\ mode = <<>> /\ pc = <<>> /\ dead = {} /\ tok = 0 /\ conn = 0 /\ sp = [s \in Stoppers |-> "idle"]
        /\ sc = [s \in Stoppers |-> 0] /\ snap = [s \in Stoppers |-> 0] /\ busy = FALSE /\ nst = 0 /\ pe = {} /\ closed = FALSE /\ C!ClInit
Go(n, a, b) == pc[n] = a /\ pc' = [pc EXCEPT ![n] = b]
Att == /\ ~busy /\ call = 0 /\ natt < N /\ natt' = natt + 1 /\ call' = natt + 1 /\ busy' = TRUE
       /\ \E m \in {"acc", "ref"} : mode' = Append(mode, m) /\ C!ClAtt(natt + 1, m)
       /\ pc' = Append(pc, "called") /\ UNCHANGED <<dead, tok, conn, sp, sc, snap, nst, pe, closed>>
Swap(n) == Go(n, "called", "dial") /\ tok' = n /\ UNCHANGED <<natt, call, mode, dead, conn, sp, sc, snap, busy, nst, pe, closed, cv>>
Ret == call > 0 /\ pc[call] # "called" /\ C!ClAttRet(call) /\ call' = 0 /\ UNCHANGED <<natt, mode, pc, dead, tok, conn, sp, sc, snap, busy, nst, pe, closed>>
DialOk(n) == /\ mode[n] = "acc" /\ Go(n, "dial", "have") /\ Assert(ENABLED C!ClUpOf(n, n), <<"up", n>>) /\ C!ClUpOf(n, n)
             /\ UNCHANGED <<natt, call, mode, dead, tok, conn, sp, sc, snap, busy, nst, pe, closed>>
DialErr(n) == /\ mode[n] = "ref" /\ Go(n, "dial", "over") /\ UNCHANGED <<natt, call, mode, dead, tok, conn, sp, sc, snap, nst, pe, closed>>
              /\ \/ ~closed /\ Assert(ENABLED C!ClErrOf(n), <<"err", n>>) /\ C!ClErrOf(n) /\ busy' = (busy /\ n # natt)
                 \/ (closed \/ tok # n) /\ UNCHANGED <<busy, cv>>
Install(n) == /\ UNCHANGED <<natt, call, mode, tok, sp, sc, snap, busy, nst, pe, closed, cv>>
              /\ IF Atomic THEN Go(n, "have", "ready") /\ conn' = (IF tok = n THEN n ELSE conn) /\ dead' = (IF tok = n THEN dead ELSE dead \cup {n})
                 ELSE Go(n, "have", "look") /\ conn' = n /\ UNCHANGED dead
Look(n) == Go(n, "look", "ready") /\ dead' = (IF tok = n THEN dead ELSE dead \cup {n}) /\ UNCHANGED <<natt, call, mode, conn, tok, sp, sc, snap, busy, nst, pe, closed, cv>>
Step(n, a, b, X) == Go(n, a, b) /\ Assert(ENABLED X, <<a, b, n, cs, out>>) /\ X /\ UNCHANGED <<natt, call, mode, dead, conn, tok, sp, sc, snap, nst, pe, closed>>
StartB(n) == Step(n, "ready", "starting", C!ClStartB(n)) /\ UNCHANGED busy
StartE(n) == Step(n, "starting", "run", C!ClStartE(n)) /\ UNCHANGED busy
StopB(n) == n \in dead /\ Step(n, "run", "stopping", C!ClStopB(n)) /\ busy' = (busy /\ n # natt)
StopE(n) == Step(n, "stopping", "close", C!ClStopE(n)) /\ UNCHANGED busy
Eof(n) == Step(n, "close", "over", C!ClEof(n)) /\ UNCHANGED busy
PeerEnds(n) == /\ Cardinality(pe) < MaxEnd /\ pc[n] \notin {"called", "dial", "over"} /\ n \notin dead /\ cs[n].end # "yes" /\ pe' = pe \cup {n}
               /\ C!ClPeerEnds(n, "close") /\ UNCHANGED <<natt, call, mode, pc, dead, tok, conn, sp, sc, snap, busy, nst, closed>>
\* the client notices
Notice(n) == pc[n] = "run" /\ n \notin dead /\ n \in pe /\ dead' = dead \cup {n} /\ UNCHANGED <<natt, call, mode, pc, tok, conn, sp, sc, snap, busy, nst, pe, closed, cv>>
StopCall(s) == /\ sp[s] = "idle" /\ nst < MaxStop /\ nst' = nst + 1 /\ sp' = [sp EXCEPT ![s] = "take"] /\ snap' = [snap EXCEPT ![s] = IF call = 0 THEN natt ELSE -1]
               /\ C!ClStop /\ UNCHANGED <<natt, call, mode, pc, dead, tok, conn, sc, busy, pe, closed>>
Take(s) == /\ sp[s] = "take" /\ tok' = 0 /\ UNCHANGED <<natt, call, mode, pc, dead, conn, snap, busy, nst, pe, closed, cv>>
           /\ IF Atomic THEN sp' = [sp EXCEPT ![s] = "end"] /\ sc' = [sc EXCEPT ![s] = conn] ELSE sp' = [sp EXCEPT ![s] = "read"] /\ UNCHANGED sc
Read(s) == sp[s] = "read" /\ sp' = [sp EXCEPT ![s] = "end"] /\ sc' = [sc EXCEPT ![s] = conn] /\ UNCHANGED <<natt, call, mode, pc, dead, tok, conn, snap, busy, nst, pe, closed, cv>>
EndConn(s) == sp[s] = "end" /\ sp' = [sp EXCEPT ![s] = "close"] /\ dead' = (IF sc[s] = 0 THEN dead ELSE dead \cup {sc[s]}) /\ UNCHANGED <<natt, call, mode, pc, tok, conn, sc, snap, busy, nst, pe, closed, cv>>
Return(s) == /\ sp[s] = "close" /\ sp' = [sp EXCEPT ![s] = "idle"] /\ closed' = TRUE /\ busy' = (busy /\ snap[s] # natt) /\ C!ClStopped(0)
             /\ UNCHANGED <<natt, call, mode, pc, dead, tok, conn, sc, snap, nst, pe>>
Inner == Ret \/ (\E n \in 1..natt : Swap(n) \/ DialOk(n) \/ DialErr(n) \/ Install(n) \/ Look(n) \/ StartB(n) \/ StartE(n) \/ StopB(n) \/ StopE(n) \/ Eof(n) \/ Notice(n))
         \/ (\E s \in Stoppers : Take(s) \/ Read(s) \/ EndConn(s) \/ Return(s))
Resting == call = 0 /\ {s \in Stoppers : sp[s] # "idle"} = {} /\ {n \in 1..natt : pc[n] \in {"called", "dial", "have", "look", "ready", "starting", "stopping", "close"} \/ (pc[n] = "run" /\ n \in dead \cup pe)} = {}
\* when everything has settled, it is as the contract wants it
Quiet == Resting /\ Assert(ENABLED C!ClQuiet, <<"quiet", out, cs>>) /\ UNCHANGED vars
Next == Att \/ (\E n \in 1..natt : PeerEnds(n)) \/ (\E s \in Stoppers : StopCall(s)) \/ Inner \/ Quiet
Spec == Init /\ [][Next]_vars
TypeOK == Len(pc) = natt
=============================================================================
