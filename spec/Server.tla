------------------------------- MODULE Server -------------------------------
(* The design of the server's connection handling: a TCP accept loop and websocket handlers share the registry and
   the limit; each connection has a goroutine that runs start hook, waits for its context, and finalizes.
   Checked: it implements the contract ConnLife for all interleavings, and everything that has to end ends. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Tcp, Ws, Max, Clears, Stops
VARIABLES ph, kcid, may, must, cbs, run, srv, qs, full, acc, clearing,
          lpc, lconn, admitting, reg, ctx, pc, nextId, exit, clr, spc, todo, pclosed
dvars == <<lpc, lconn, admitting, reg, ctx, pc, nextId, exit, clr, spc, todo, pclosed>>
life == <<ph, kcid, may, must, cbs, run, srv, qs, full, acc, clearing>>
vars == <<life, dvars>>
Cs == Tcp \cup Ws
L == INSTANCE ConnLife

Init == /\ L!LInit /\ lpc = "check" /\ lconn = 0 /\ admitting = 0 /\ reg = {} /\ ctx = {} /\ pc = [c \in Cs |-> "none"]
        /\ nextId = 1 /\ exit = FALSE /\ clr = 0 /\ spc = "up" /\ todo = {} /\ pclosed = {}

Dial(c) == /\ L!Dial(c, Max) /\ pc' = [pc EXCEPT ![c] = IF exit THEN "dead" ELSE "wait"]
           /\ UNCHANGED <<lpc, lconn, admitting, reg, ctx, nextId, exit, clr, spc, todo, pclosed>>
\* TCP accept loop
LCheck == lpc = "check" /\ Cardinality(reg) < Max /\ lpc' = "accept" /\ UNCHANGED <<life, lconn, admitting, reg, ctx, pc, nextId, exit, clr, spc, todo, pclosed>>
LAccept(c) == /\ lpc = "accept" /\ c \in Tcp /\ pc[c] = "wait" /\ ~exit /\ lpc' = "admit" /\ lconn' = c /\ pc' = [pc EXCEPT ![c] = "accepted"]
              /\ UNCHANGED <<life, admitting, reg, ctx, nextId, exit, clr, spc, todo, pclosed>>
LClosed == lpc = "accept" /\ exit /\ lpc' = "end" /\ UNCHANGED <<life, lconn, admitting, reg, ctx, pc, nextId, exit, clr, spc, todo, pclosed>>
LAdmit == /\ lpc = "admit" /\ Cardinality(reg) + admitting < Max /\ admitting' = admitting + 1 /\ lpc' = "add"
          /\ UNCHANGED <<life, lconn, reg, ctx, pc, nextId, exit, clr, spc, todo, pclosed>>
LAdd == /\ lpc = "add" /\ reg' = reg \cup {lconn} /\ admitting' = admitting - 1 /\ lpc' = "serve"
        /\ UNCHANGED <<life, lconn, ctx, pc, nextId, exit, clr, spc, todo, pclosed>>
LServe == /\ lpc = "serve" /\ ctx' = (IF exit THEN ctx \cup {lconn} ELSE ctx) /\ pc' = [pc EXCEPT ![lconn] = "ready"] /\ lpc' = "check"
          /\ UNCHANGED <<life, lconn, admitting, reg, nextId, exit, clr, spc, todo, pclosed>>
\* websocket handlers, one per client
WAdmit(c) == /\ c \in Ws /\ pc[c] = "wait"
             /\ IF Cardinality(reg) + admitting < Max THEN admitting' = admitting + 1 /\ pc' = [pc EXCEPT ![c] = "up"] /\ UNCHANGED life
                ELSE UNCHANGED admitting /\ pc' = [pc EXCEPT ![c] = "dead"] /\ L!Refused(c)
             /\ UNCHANGED <<lpc, lconn, reg, ctx, nextId, exit, clr, spc, todo, pclosed>>
WAdd(c) == /\ c \in Ws /\ pc[c] = "up" /\ reg' = reg \cup {c} /\ admitting' = admitting - 1 /\ pc' = [pc EXCEPT ![c] = "serve"]
           /\ UNCHANGED <<life, lpc, lconn, ctx, nextId, exit, clr, spc, todo, pclosed>>
WServe(c) == /\ c \in Ws /\ pc[c] = "serve" /\ ctx' = (IF exit THEN ctx \cup {c} ELSE ctx) /\ pc' = [pc EXCEPT ![c] = "ready"]
             /\ UNCHANGED <<life, lpc, lconn, admitting, reg, nextId, exit, clr, spc, todo, pclosed>>
\* the connection's goroutine
CStartB(c) == /\ pc[c] = "ready" /\ L!StartB(c, nextId, Max) /\ nextId' = nextId + 1 /\ pc' = [pc EXCEPT ![c] = "hook"]
              /\ UNCHANGED <<lpc, lconn, admitting, reg, ctx, exit, clr, spc, todo, pclosed>>
CStartE(c) == /\ pc[c] = "hook" /\ L!StartE(c) /\ pc' = [pc EXCEPT ![c] = "run"]
              /\ UNCHANGED <<lpc, lconn, admitting, reg, ctx, nextId, exit, clr, spc, todo, pclosed>>
CReadEOF(c) == /\ pc[c] = "run" /\ c \in pclosed /\ c \notin ctx /\ ctx' = ctx \cup {c}
               /\ UNCHANGED <<life, lpc, lconn, admitting, reg, pc, nextId, exit, clr, spc, todo, pclosed>>
CStopB(c) == /\ pc[c] = "run" /\ c \in ctx /\ L!StopB(c) /\ pc' = [pc EXCEPT ![c] = "stoph"]
             /\ UNCHANGED <<lpc, lconn, admitting, reg, ctx, nextId, exit, clr, spc, todo, pclosed>>
CStopE(c) == /\ pc[c] = "stoph" /\ L!StopE(c) /\ pc' = [pc EXCEPT ![c] = "fin"]
             /\ UNCHANGED <<lpc, lconn, admitting, reg, ctx, nextId, exit, clr, spc, todo, pclosed>>
CRemove(c) == /\ pc[c] = "fin" /\ reg' = reg \ {c} /\ pc' = [pc EXCEPT ![c] = "removed"]
              /\ UNCHANGED <<life, lpc, lconn, admitting, ctx, nextId, exit, clr, spc, todo, pclosed>>
CGone(c) == /\ pc[c] = "removed" /\ L!Gone(c) /\ pc' = [pc EXCEPT ![c] = "gone"]
            /\ UNCHANGED <<lpc, lconn, admitting, reg, ctx, nextId, exit, clr, spc, todo, pclosed>>
\* the environment
PeerClose(c) == /\ ph[c] \in {"dial", "startb", "open"} /\ c \notin pclosed /\ L!EndReq(c) /\ pclosed' = pclosed \cup {c}
                /\ UNCHANGED <<lpc, lconn, admitting, reg, ctx, pc, nextId, exit, clr, spc, todo>>
Stop(c) == /\ Stops /\ ph[c] \in {"startb", "open", "stopb"} /\ c \notin ctx /\ L!EndReq(c) /\ ctx' = ctx \cup {c}
           /\ UNCHANGED <<lpc, lconn, admitting, reg, pc, nextId, exit, clr, spc, todo, pclosed>>
\* ClearConn: a snapshot of the registry, then one Stop after the other
ClearB == /\ clr < Clears /\ todo = {} /\ reg # {} /\ spc # "clear" /\ L!ClearReq /\ todo' = reg /\ clr' = clr + 1
          /\ UNCHANGED <<lpc, lconn, admitting, reg, ctx, pc, nextId, exit, spc, pclosed>>
ClearStep == \E c \in todo : /\ todo' = todo \ {c} /\ ctx' = ctx \cup {c}
                             /\ IF todo = {c} /\ spc # "clear" THEN L!ClearEnd ELSE UNCHANGED life
                             /\ UNCHANGED <<lpc, lconn, admitting, reg, pc, nextId, exit, clr, spc, pclosed>>
SStopB == /\ spc = "up" /\ L!SrvStopB /\ spc' = "exit" /\ UNCHANGED <<lpc, lconn, admitting, reg, ctx, pc, nextId, exit, clr, todo, pclosed>>
SExit == /\ spc = "exit" /\ exit' = TRUE /\ spc' = "snap"
         /\ pc' = [c \in Cs |-> IF c \in Tcp /\ pc[c] = "wait" THEN "dead" ELSE pc[c]]
         /\ UNCHANGED <<life, lpc, lconn, admitting, reg, ctx, nextId, clr, todo, pclosed>>
SSnap == /\ spc = "snap" /\ todo = {} /\ todo' = reg /\ spc' = "clear" /\ UNCHANGED <<life, lpc, lconn, admitting, reg, ctx, pc, nextId, exit, clr, pclosed>>
SStopE == /\ spc = "clear" /\ todo = {} /\ L!SrvStopE /\ spc' = "down" /\ UNCHANGED <<lpc, lconn, admitting, reg, ctx, pc, nextId, exit, clr, todo, pclosed>>

Sys == \/ LCheck \/ LAdmit \/ LAdd \/ LServe \/ LClosed \/ ClearStep \/ SExit \/ SSnap \/ SStopE
       \/ \E c \in Cs : LAccept(c) \/ WAdmit(c) \/ WAdd(c) \/ WServe(c) \/ CStartB(c) \/ CStartE(c) \/ CReadEOF(c) \/ CStopB(c) \/ CStopE(c) \/ CRemove(c) \/ CGone(c)
Env == \/ ClearB \/ SStopB \/ \E c \in Cs : Dial(c) \/ PeerClose(c) \/ Stop(c)
Next == Sys \/ Env
Spec == Init /\ [][Next]_vars /\ WF_vars(Sys)

\* the contract never stands in the way of the design
Implements == /\ \A c \in Cs : pc[c] = "ready" => L!CanStartB(c, Max)
              /\ \A c \in Cs : pc[c] = "run" /\ c \in ctx => L!CanStopB(c)
              /\ \A c \in Ws : pc[c] = "wait" /\ Cardinality(reg) + admitting >= Max => L!CanRefuse(c)
Limit == L!NeverTooMany(Max) /\ Cardinality(reg) + admitting <= Max
RegistryMirror == \A c \in Cs : (ph[c] \in {"startb", "open", "stopb"} => c \in reg) /\ (ph[c] \in {"none", "gone", "refused"} => c \notin reg)
\* when the system comes to rest, the contract's Quiet holds
AtRest == ~ENABLED Sys => L!Quiet(Max, Tcp)
ComesToRest == <>[](~ENABLED Sys)
=============================================================================
