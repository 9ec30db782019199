------------------------------ MODULE Dispatch ------------------------------
(* The design of message dispatch: readers, bounded worker queues, workers, and the allocation of workers to
   connections in the three worker modes.  One action per critical section of the implementation:
     Admit     the listener registers the connection (its place counts from here)
     Assign    useWorker, after the start hook
     Read      the reader decodes one message and puts it on the queue of its worker (blocking when full)
     Begin/End a worker takes a message and runs its handler
     PeerClose / ReadEOF  the peer closes; the reader sees it after everything before it
     Free      the finalizer returns the worker (for an extra worker: its queue is closed, it drains and ends)
     Leave     the finalizer removes the connection from the registry (its place becomes free)
   Checked: the design implements the contract Serve, and every message is handled eventually. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Conns, Mode, Pool, MaxConn, QLen, MaxMsg, AllowClose
VARIABLES ph, freeW, extraW, gen, qs, run, rd, wid, sent, begun, act, last, wk, busy, seen, st
dvars == <<ph, freeW, extraW, gen, qs, run, rd, wid>>
vars == <<ph, freeW, extraW, gen, qs, run, rd, wid, sent, begun, act, last, wk, busy, seen, st>>
S == INSTANCE Serve

W == IF Mode = "Hash" THEN Pool ELSE MaxConn
Bound == Mode # "Hash"
None == <<0, 0>>
\* an extra worker (DynamicBind) has a new goroutine and queue each time it is allocated: <<id, generation>>
Gens == 0..Cardinality(Conns)
Workers == (0..(W - 1)) \X Gens
PoolSize == IF Mode = "Bind" THEN MaxConn ELSE Pool
Name(w) == 1 + w[1] + W * w[2]

Init == /\ ph = [c \in Conns |-> "none"] /\ freeW = (IF Mode = "Hash" THEN {} ELSE 0..(PoolSize - 1))
        /\ extraW = (IF Mode = "DynamicBind" THEN PoolSize..(MaxConn - 1) ELSE {})
        /\ gen = [w \in 0..(W - 1) |-> 0] /\ qs = [w \in Workers |-> <<>>] /\ run = [w \in Workers |-> None]
        /\ rd = [c \in Conns |-> 0] /\ wid = [c \in Conns |-> <<0, 0>>]
        /\ S!SvInit(Conns)
Registered == {c \in Conns : ph[c] \notin {"none", "left"}}
Admit(c) == ph[c] = "none" /\ Cardinality(Registered) < MaxConn /\ ph' = [ph EXCEPT ![c] = "admitted"]
            /\ UNCHANGED <<freeW, extraW, gen, qs, run, rd, wid, sent, begun, act, last, wk, busy, seen, st>>
Assign(c) ==
  /\ ph[c] = "admitted" /\ ph' = [ph EXCEPT ![c] = "open"]
  /\ CASE Mode = "Hash" -> wid' = [wid EXCEPT ![c] = <<c % Pool, 0>>] /\ UNCHANGED <<freeW, extraW, gen>>
       [] OTHER -> IF freeW # {} THEN \E w \in freeW : freeW' = freeW \ {w} /\ wid' = [wid EXCEPT ![c] = <<w, gen[w]>>] /\ UNCHANGED <<extraW, gen>>
                   ELSE IF extraW # {} THEN \E w \in extraW : /\ extraW' = extraW \ {w} /\ gen' = [gen EXCEPT ![w] = @ + 1]
                                                             /\ wid' = [wid EXCEPT ![c] = <<w, gen[w] + 1>>] /\ UNCHANGED freeW
                   ELSE wid' = [wid EXCEPT ![c] = <<c % PoolSize, 0>>] /\ UNCHANGED <<freeW, extraW, gen>>
  /\ UNCHANGED <<qs, run, rd>> /\ S!SvStart(c)
PeerSend(c) == /\ ph[c] = "open" /\ st[c] = "open" /\ Len(sent[c]) < MaxMsg
               /\ S!SvSend(c, "ok") /\ UNCHANGED dvars
Read(c) == /\ ph[c] = "open" /\ rd[c] < Len(sent[c]) /\ Len(qs[wid[c]]) < QLen
           /\ rd' = [rd EXCEPT ![c] = @ + 1] /\ qs' = [qs EXCEPT ![wid[c]] = Append(@, <<c, rd[c] + 1>>)]
           /\ UNCHANGED <<ph, freeW, extraW, gen, run, wid, sent, begun, act, last, wk, busy, seen, st>>
Begin(w) == /\ run[w] = None /\ qs[w] # <<>>
            /\ run' = [run EXCEPT ![w] = Head(qs[w])] /\ qs' = [qs EXCEPT ![w] = Tail(@)]
            /\ S!SvBegin(Head(qs[w])[1], Head(qs[w])[2], Name(w), TRUE, Bound, W + (IF Mode = "DynamicBind" THEN Cardinality(Conns) ELSE 0), Mode # "DynamicBind")
            /\ UNCHANGED <<ph, freeW, extraW, gen, rd, wid>>
End(w) == /\ run[w] # None /\ S!SvEnd(run[w][1], run[w][2], Name(w), TRUE)
          /\ run' = [run EXCEPT ![w] = None] /\ UNCHANGED <<ph, freeW, extraW, gen, qs, rd, wid>>
PeerClose(c) == AllowClose /\ st[c] = "open" /\ S!SvClosing(c) /\ UNCHANGED dvars
Free(c) == /\ ph[c] = "open" /\ st[c] = "closing" /\ rd[c] = Len(sent[c])
           /\ ph' = [ph EXCEPT ![c] = "freed"]
           /\ CASE Mode = "Hash" -> UNCHANGED <<freeW, extraW>>
                [] OTHER -> IF wid[c][1] < PoolSize THEN freeW' = freeW \cup {wid[c][1]} /\ UNCHANGED extraW
                            ELSE extraW' = extraW \cup {wid[c][1]} /\ UNCHANGED freeW
           /\ S!SvStop(c) /\ UNCHANGED <<gen, qs, run, rd, wid>>
Leave(c) == ph[c] = "freed" /\ ph' = [ph EXCEPT ![c] = "left"]
            /\ UNCHANGED <<freeW, extraW, gen, qs, run, rd, wid, sent, begun, act, last, wk, busy, seen, st>>
Next == (\E c \in Conns : Admit(c) \/ Assign(c) \/ PeerSend(c) \/ Read(c) \/ PeerClose(c) \/ Free(c) \/ Leave(c))
        \/ (\E w \in Workers : Begin(w) \/ End(w))
Fair == /\ \A c \in Conns : WF_vars(Assign(c)) /\ WF_vars(Read(c)) /\ WF_vars(Free(c)) /\ WF_vars(Leave(c))
        /\ \A w \in Workers : WF_vars(Begin(w)) /\ WF_vars(End(w))
Spec == Init /\ [][Next]_vars
LiveSpec == Spec /\ Fair

\* The design may take Begin whenever a queue is not empty: the contract must never forbid it
ContractAllows == \A w \in Workers : run[w] = None /\ qs[w] # <<>> => ENABLED Begin(w)
\* C04 at the level of the allocation itself
OwnWorker == Bound => \A c, d \in Conns : c # d /\ ph[c] = "open" /\ ph[d] = "open" => wid[c] # wid[d]
Conserved == Mode = "Bind" => \A c \in Conns : ph[c] = "open" => wid[c][1] \notin freeW
AllHandled == \A c \in Conns : [](Len(sent[c]) >= 1 => <>(1 \in begun[c] /\ act[c] = {}))
=============================================================================
