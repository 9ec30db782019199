------------------------------ MODULE ConnLife ------------------------------
(* The life of server connections as an application can observe it (C06, C07, C08, C22).

   ph[c]   "none" | "dial" (its client has begun to connect) | "startb" (start hook running) | "open" (start hook
           has returned) | "stopb" (stop hook running) | "stopped" (it has returned) | "gone" (removed) | "refused"
           | "late" (began to connect after the server was closed: never served)
   kcid[c] its id (0: not known yet)
   may     connections whose end was asked for or may have been (stop, peer close, clear, server stop)
   must    connections whose end was definitely asked for: they have to end
   cbs[c]  registered close callbacks, in order: [n, sure]; a callback added or removed while the end of the
           connection may already have begun is not sure to run
   run[c]  the callbacks that have run
   srv     "up" | "stopping" (Stop has been called) | "down" (Stop has returned)
   qs      registry queries in progress: [q, out]: the connections absent when it began ... (see QB)
   acc     clients whose transport handshake has completed (where the application layer takes part in it)
   clearing  number of clear calls in progress
   full    clients for which the server may have been full at some moment since they began to connect *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Cs
VARIABLES ph, kcid, may, must, cbs, run, srv, qs, full, acc, clearing
lifeVars == <<ph, kcid, may, must, cbs, run, srv, qs, full, acc, clearing>>

LInit == /\ ph = [c \in Cs |-> "none"] /\ kcid = [c \in Cs |-> 0] /\ may = {} /\ must = {}
         /\ cbs = [c \in Cs |-> <<>>] /\ run = [c \in Cs |-> <<>>] /\ srv = "up" /\ qs = {} /\ full = {} /\ acc = {} /\ clearing = 0

\* certainly registered / certainly holding a place
Open == {c \in Cs : ph[c] \in {"startb", "open", "stopb"}}
\* possibly registered
Perhaps == {c \in Cs : ph[c] \in {"dial", "startb", "open", "stopb", "stopped"}}
\* ghost bookkeeping of who may have found the server full; called with the phases after the step
Full(max, ph2) == full \cup {c \in Cs : ph2[c] = "dial" /\ Cardinality({d \in Cs \ {c} : ph2[d] \in {"dial", "startb", "open", "stopb", "stopped"}}) >= max}

Dial(c, max) == /\ ph[c] = "none" /\ ph' = [ph EXCEPT ![c] = IF srv = "closed" THEN "late" ELSE "dial"] /\ full' = Full(max, ph')
                /\ UNCHANGED <<kcid, may, must, cbs, run, srv, qs, acc, clearing>>
Accepted(c) == acc' = acc \cup {c} /\ UNCHANGED <<ph, kcid, may, must, cbs, run, srv, qs, full, clearing>>
CanStartB(c, max) == ph[c] = "dial" /\ Cardinality(Open) < max
StartB(c, id, max) == /\ CanStartB(c, max) /\ id # 0 /\ \A d \in Cs : kcid[d] # id
                      /\ ph' = [ph EXCEPT ![c] = "startb"] /\ kcid' = [kcid EXCEPT ![c] = id]
                      /\ UNCHANGED <<may, must, cbs, run, srv, qs, full, acc, clearing>>
StartE(c) == /\ ph[c] = "startb" /\ ph' = [ph EXCEPT ![c] = "open"] /\ UNCHANGED <<kcid, may, must, cbs, run, srv, qs, full, acc, clearing>>
CanHandle(c) == ph[c] \in {"open", "stopb", "stopped", "gone"}
Handle(c) == CanHandle(c) /\ UNCHANGED lifeVars
\* the end of c is asked for: by its peer, by Stop from anywhere
EndReq(c) == /\ ph[c] \in {"dial", "startb", "open", "stopb", "stopped", "gone"} /\ may' = may \cup {c} /\ must' = must \cup {c}
             /\ UNCHANGED <<ph, kcid, cbs, run, srv, qs, full, acc, clearing>>
\* all connections are cleared: those registered now have to end, those on their way in may be included
ClearReq == /\ may' = may \cup Perhaps /\ must' = must \cup Open /\ clearing' = clearing + 1 /\ UNCHANGED <<ph, kcid, cbs, run, srv, qs, full, acc>>
\* connections that came before the call returned may have been included
ClearEnd == /\ may' = may \cup Perhaps /\ clearing' = clearing - 1 /\ UNCHANGED <<ph, kcid, must, cbs, run, srv, qs, full, acc>>
\* the server is stopped: everything it has accepted, or still accepts, has to end
SrvStopB == /\ srv = "up" /\ srv' = "stopping" /\ UNCHANGED <<ph, kcid, may, must, cbs, run, qs, full, acc, clearing>>
SrvStopE == /\ srv = "stopping" /\ srv' = "down" /\ UNCHANGED <<ph, kcid, may, must, cbs, run, qs, full, acc, clearing>>
\* nothing is accepted any more (the port is free again)
SrvClosed == /\ srv = "down" /\ srv' = "closed" /\ UNCHANGED <<ph, kcid, may, must, cbs, run, qs, full, acc, clearing>>
MayEnd(c) == c \in may \/ srv # "up" \/ clearing > 0
MustEnd(c) == c \in must \/ (srv # "up" /\ ph[c] \notin {"none", "dial", "refused", "late"})
CanStopB(c) == ph[c] = "open" /\ MayEnd(c)
StopB(c) == CanStopB(c) /\ ph' = [ph EXCEPT ![c] = "stopb"] /\ UNCHANGED <<kcid, may, must, cbs, run, srv, qs, full, acc, clearing>>
StopE(c) == ph[c] = "stopb" /\ ph' = [ph EXCEPT ![c] = "stopped"] /\ UNCHANGED <<kcid, may, must, cbs, run, srv, qs, full, acc, clearing>>
\* close callbacks
AddCb(c, n) == /\ cbs' = [cbs EXCEPT ![c] = Append(@, [n |-> n, sure |-> FALSE])]       \* the call begins
               /\ UNCHANGED <<ph, kcid, may, must, run, srv, qs, full, acc, clearing>>
SetSure(c, n, b) == [j \in DOMAIN cbs[c] |-> IF cbs[c][j].n = n THEN [cbs[c][j] EXCEPT !.sure = b] ELSE cbs[c][j]]
AddedCb(c, n) == /\ cbs' = [cbs EXCEPT ![c] = SetSure(c, n, ~MayEnd(c))]                   \* it has returned
                 /\ UNCHANGED <<ph, kcid, may, must, run, srv, qs, full, acc, clearing>>
RmCb(c, n) == /\ cbs' = [cbs EXCEPT ![c] = SetSure(c, n, FALSE)]
              /\ UNCHANGED <<ph, kcid, may, must, run, srv, qs, full, acc, clearing>>
RmedCb(c, n) == /\ cbs' = [cbs EXCEPT ![c] = IF MayEnd(c) THEN @ ELSE SelectSeq(@, LAMBDA x : x.n # n)]
                /\ UNCHANGED <<ph, kcid, may, must, run, srv, qs, full, acc, clearing>>
At(c, n) == {j \in DOMAIN cbs[c] : cbs[c][j].n = n}
Pos(c) == IF run[c] = <<>> THEN 0 ELSE LET n == run[c][Len(run[c])] IN CHOOSE j \in At(c, n) : TRUE
CanCb(c, n) == /\ ph[c] \in {"stopped", "gone"}
               /\ \E j \in At(c, n) : j > Pos(c) /\ \A k \in (Pos(c) + 1)..(j - 1) : ~cbs[c][k].sure
Cb(c, n) == CanCb(c, n) /\ run' = [run EXCEPT ![c] = Append(@, n)] /\ UNCHANGED <<ph, kcid, may, must, cbs, srv, qs, full, acc, clearing>>
CbsDone(c) == \A j \in (Pos(c) + 1)..Len(cbs[c]) : ~cbs[c][j].sure
\* the connection is gone from the registry (seen by the observer), its transport closed
Gone(c) == ph[c] = "stopped" /\ ph' = [ph EXCEPT ![c] = "gone"] /\ UNCHANGED <<kcid, may, must, cbs, run, srv, qs, full, acc, clearing>>
CanRefuse(c) == ph[c] = "dial" /\ (c \in full \/ srv # "up")
Refused(c) == CanRefuse(c) /\ ph' = [ph EXCEPT ![c] = "refused"] /\ UNCHANGED <<kcid, may, must, cbs, run, srv, qs, full, acc, clearing>>

\* Registry queries: a connection registered during the whole call is in the answer, one absent during all of it is not
QB(q) == /\ qs' = qs \cup {[q |-> q, in |-> Open, out |-> {c \in Cs : ph[c] \in {"gone", "refused"}}]}
         /\ UNCHANGED <<ph, kcid, may, must, cbs, run, srv, full, acc, clearing>>
Query(q) == CHOOSE x \in qs : x.q = q
CertainlyIn(q) == Query(q).in \cap Open
CertainlyOut(q) == Query(q).out \cup {c \in Cs : ph[c] = "none"}
ListOk(q, ids) ==                     \* ids: a sequence of connection numbers
  /\ \A j, k \in DOMAIN ids : j # k => ids[j] # ids[k]
  /\ \A c \in CertainlyIn(q) : \E j \in DOMAIN ids : ids[j] = c
  /\ \A j \in DOMAIN ids : ids[j] \in Cs \ CertainlyOut(q)
CountOk(q, n) == Cardinality(CertainlyIn(q)) <= n /\ n <= Cardinality(Cs \ CertainlyOut(q))
LookupOk(q, c, r) == (c \in CertainlyIn(q) => r = c) /\ (c \in CertainlyOut(q) => r = 0) /\ r \in {0, c}
QE(q) == qs' = qs \ {Query(q)} /\ UNCHANGED <<ph, kcid, may, must, cbs, run, srv, full, acc, clearing>>

\* everything has had time to happen: what has to end has ended completely, and waiting clients (waits: those whose
\* transport makes them wait) are in unless the server is full
Quiet(max, waits) ==
  /\ \A c \in Cs : ph[c] \notin {"startb", "stopb", "stopped"}
  /\ \A c \in Cs : MustEnd(c) => ph[c] \in {"gone", "dial", "refused"}
  /\ \A c \in Cs : ph[c] = "gone" => CbsDone(c)
  /\ srv = "up" => \A c \in waits : ph[c] = "dial" => Cardinality(Open) >= max
  /\ srv = "up" => \A c \in acc : ph[c] # "dial"
NeverTooMany(max) == Cardinality(Open) <= max
=============================================================================
