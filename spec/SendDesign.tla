----------------------------- MODULE SendDesign -----------------------------
(* The design of the send paths.  A message is Size units on the wire; the socket takes one unit at a time, holds at most
   Cap unread units, and gives a writer exclusive use for one Write call (wl).
     direct    check open, (Locked: take the connection's lock), write all units in one Write call
     buffered  (Locked: take the lock,) check open, put the packed message on the queue or give up after a timeout
     writer    takes from the queue; Locked: sends it as a direct sender; otherwise (TCP) collects messages in a buffer of
               Buf units which it empties when the next message does not fit and when its ticker fires
     end       cancel, stop hook, close the socket (blocked writers fail), take the lock (Locked), report the end
   Checked: it implements the contract Send, frames are never interleaved, every call returns once the connection has
   ended even though the peer reads nothing, and everything accepted is delivered while the connection stays open. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Senders, Progs, QLen, Cap, Size, Buf, Locked, CanStop, PeerReads, WholeFlush
VARIABLES pc, left, cur, q, wl, lk, wpc, wbuf, wcur, off, sock, asm, closed, cancel, fin, calls, got, cst
S == INSTANCE Send
dv == <<pc, left, cur, q, wl, lk, wpc, wbuf, wcur, off, sock, asm, closed, cancel, fin>>
vars == <<pc, left, cur, q, wl, lk, wpc, wbuf, wcur, off, sock, asm, closed, cancel, fin, calls, got, cst>>
W == 0
Who == Senders \cup {W}
Free == -1
Torn == <<0, 0>>
ProgOf(g) == CASE Progs = "mixed" -> <<"direct", "buff", "buff">>
               [] Progs = "buff" -> <<"buff", "buff", "buff">>
               [] Progs = "split" -> IF g = 1 THEN <<"direct", "direct">> ELSE <<"buff", "buff", "buff">>
               [] OTHER -> <<"direct", "direct">>

Init == /\ pc = [g \in Senders |-> "idle"] /\ left = [g \in Senders |-> ProgOf(g)] /\ cur = [g \in Senders |-> 0]
        /\ q = <<>> /\ wl = Free /\ lk = Free /\ wpc = "idle" /\ wbuf = <<>> /\ wcur = 0 /\ off = [w \in Who |-> 0]
        /\ sock = <<>> /\ asm = <<>> /\ closed = FALSE /\ cancel = FALSE /\ fin = "no" /\ S!SdInit

\* ---- senders
Begin(g) == /\ pc[g] = "idle" /\ left[g] # <<>>
            /\ S!SdCall(Len(calls) + 1, g, Head(left[g])) /\ cur' = [cur EXCEPT ![g] = Len(calls) + 1]
            /\ pc' = [pc EXCEPT ![g] = IF Locked THEN "lock" ELSE "check"]
            /\ UNCHANGED <<left, q, wl, lk, wpc, wbuf, wcur, off, sock, asm, closed, cancel, fin>>
Lock(g) == pc[g] = "lock" /\ lk = Free /\ lk' = g /\ pc' = [pc EXCEPT ![g] = "check"]
           /\ UNCHANGED <<left, cur, q, wl, wpc, wbuf, wcur, off, sock, asm, closed, cancel, fin, calls, got, cst>>
Done(g, r) == /\ S!SdRet(cur[g], r) /\ pc' = [pc EXCEPT ![g] = "idle"] /\ left' = [left EXCEPT ![g] = Tail(@)]
              /\ lk' = (IF lk = g THEN Free ELSE lk)
\* the open check: TCP looks at the context, the locked transports at a flag set at the end of the finalizer
NotOpen == IF Locked THEN fin = "reported" ELSE cancel
Check(g) == /\ pc[g] = "check"
            /\ IF NotOpen THEN Done(g, "err") /\ UNCHANGED <<cur, q, wl, wpc, wbuf, wcur, off, sock, asm, closed, cancel, fin>>
               ELSE /\ pc' = [pc EXCEPT ![g] = IF Head(left[g]) = "direct" THEN "wlock" ELSE "put"]
                    /\ UNCHANGED <<left, cur, q, wl, lk, wpc, wbuf, wcur, off, sock, asm, closed, cancel, fin, calls, got, cst>>
WLock(g) == /\ pc[g] = "wlock" /\ wl = Free /\ wl' = g /\ off' = [off EXCEPT ![g] = 0] /\ pc' = [pc EXCEPT ![g] = "write"]
            /\ UNCHANGED <<left, cur, q, lk, wpc, wbuf, wcur, sock, asm, closed, cancel, fin, calls, got, cst>>
Write(g) == /\ pc[g] = "write"
            /\ IF closed THEN Done(g, "err") /\ wl' = Free /\ UNCHANGED <<cur, q, wpc, wbuf, wcur, off, sock, asm, closed, cancel, fin>>
               ELSE IF off[g] = Size THEN Done(g, "ok") /\ wl' = Free /\ UNCHANGED <<cur, q, wpc, wbuf, wcur, off, sock, asm, closed, cancel, fin>>
               ELSE /\ Len(sock) < Cap /\ sock' = Append(sock, <<cur[g], off[g] + 1>>) /\ off' = [off EXCEPT ![g] = @ + 1]
                    /\ UNCHANGED <<pc, left, cur, q, wl, lk, wpc, wbuf, wcur, asm, closed, cancel, fin, calls, got, cst>>
Put(g) == /\ pc[g] = "put"
          /\ \/ Len(q) < QLen /\ q' = Append(q, cur[g]) /\ Done(g, "ok")
             \/ (Len(q) = QLen \/ cancel) /\ q' = q /\ Done(g, "err")    \* timeout, or the context
          /\ UNCHANGED <<cur, wl, wpc, wbuf, wcur, off, sock, asm, closed, cancel, fin>>
\* ---- writer
Units(n) == [k \in 1..Size |-> <<n, k>>]
WTake == /\ wpc = "idle" /\ q # <<>> /\ q' = Tail(q) /\ wcur' = Head(q)
         /\ wpc' = (IF Locked THEN "lock" ELSE "place")
         /\ UNCHANGED <<pc, left, cur, wl, lk, wbuf, off, sock, asm, closed, cancel, fin, calls, got, cst>>
WExit == wpc = "idle" /\ cancel /\ wpc' = "dead"
         /\ UNCHANGED <<pc, left, cur, q, wl, lk, wbuf, wcur, off, sock, asm, closed, cancel, fin, calls, got, cst>>
WLk == /\ wpc = "lock" /\ lk = Free /\ lk' = W /\ wpc' = "place"
       /\ UNCHANGED <<pc, left, cur, q, wl, wbuf, wcur, off, sock, asm, closed, cancel, fin, calls, got, cst>>
\* TCP: if the message does not fit the buffer is flushed first (WholeFlush) or filled up and flushed (the old way)
WPlace == /\ wpc = "place"
          /\ IF NotOpen THEN wpc' = "dead" /\ lk' = (IF lk = W THEN Free ELSE lk) /\ UNCHANGED <<wbuf, wcur>>
             ELSE IF Locked THEN wbuf' = Units(wcur) /\ wpc' = "flush" /\ wcur' = 0 /\ UNCHANGED lk
             ELSE IF Len(wbuf) + Size <= Buf THEN wbuf' = wbuf \o Units(wcur) /\ wpc' = "idle" /\ wcur' = 0 /\ UNCHANGED lk
             ELSE IF WholeFlush \/ wbuf = <<>>
                  THEN (IF wbuf = <<>> THEN wbuf' = Units(wcur) /\ wpc' = "flush" /\ wcur' = 0 ELSE wpc' = "flush" /\ UNCHANGED <<wbuf, wcur>>) /\ UNCHANGED lk
                  ELSE wbuf' = wbuf \o SubSeq(Units(wcur), 1, Buf - Len(wbuf)) /\ wpc' = "flush" /\ UNCHANGED <<wcur, lk>>
          /\ UNCHANGED <<pc, left, cur, q, wl, off, sock, asm, closed, cancel, fin, calls, got, cst>>
WTick == /\ wpc = "idle" /\ ~Locked /\ wbuf # <<>> /\ wpc' = "flush"
         /\ UNCHANGED <<pc, left, cur, q, wl, lk, wbuf, wcur, off, sock, asm, closed, cancel, fin, calls, got, cst>>
WFlush == /\ wpc = "flush" /\ wl = Free /\ wl' = W /\ off' = [off EXCEPT ![W] = 0] /\ wpc' = "write"
          /\ UNCHANGED <<pc, left, cur, q, lk, wbuf, wcur, sock, asm, closed, cancel, fin, calls, got, cst>>
WWrite == /\ wpc = "write"
          /\ IF closed THEN wpc' = "dead" /\ wl' = Free /\ lk' = (IF lk = W THEN Free ELSE lk) /\ UNCHANGED <<wbuf, wcur, off, sock>>
             ELSE IF off[W] = Len(wbuf)
                  THEN /\ wl' = Free /\ lk' = (IF lk = W THEN Free ELSE lk) /\ UNCHANGED <<off, sock>>
                       /\ IF wcur = 0 THEN wbuf' = <<>> /\ wpc' = "idle" /\ UNCHANGED wcur
                          ELSE IF WholeFlush THEN wbuf' = <<>> /\ wpc' = "place" /\ UNCHANGED wcur
                          ELSE LET k == wbuf[Len(wbuf)] rest == SubSeq(Units(wcur), (IF k[1] = wcur THEN k[2] ELSE 0) + 1, Size)
                               IN wbuf' = rest /\ wcur' = 0 /\ wpc' = "idle"
             ELSE /\ Len(sock) < Cap /\ sock' = Append(sock, wbuf[off[W] + 1]) /\ off' = [off EXCEPT ![W] = @ + 1]
                  /\ UNCHANGED <<wpc, wbuf, wcur, wl, lk>>
          /\ UNCHANGED <<pc, left, cur, q, asm, closed, cancel, fin, calls, got, cst>>
\* ---- peer: reads units, assembles frames
Peer == /\ PeerReads /\ sock # <<>> /\ sock' = Tail(sock)
        /\ LET a == Append(asm, Head(sock)) IN
           IF Len(a) < Size THEN asm' = a /\ UNCHANGED <<calls, got, cst>>
           ELSE IF a = Units(a[1][1]) THEN asm' = <<>> /\ S!SdRecv(a[1][1])
           ELSE asm' = a \o <<Torn>> /\ UNCHANGED <<calls, got, cst>>
        /\ UNCHANGED <<pc, left, cur, q, wl, lk, wpc, wbuf, wcur, off, closed, cancel, fin>>
\* ---- the end
Stop == CanStop /\ ~cancel /\ cancel' = TRUE /\ S!SdClosing
        /\ UNCHANGED <<pc, left, cur, q, wl, lk, wpc, wbuf, wcur, off, sock, asm, closed, fin>>
CloseSock == cancel /\ fin = "no" /\ fin' = "closed" /\ closed' = TRUE
             /\ UNCHANGED <<pc, left, cur, q, wl, lk, wpc, wbuf, wcur, off, sock, asm, cancel, calls, got, cst>>
Report == fin = "closed" /\ (Locked => lk = Free) /\ fin' = "reported" /\ S!SdEnded
          /\ UNCHANGED <<pc, left, cur, q, wl, lk, wpc, wbuf, wcur, off, sock, asm, closed, cancel>>
Snd(g) == Begin(g) \/ Lock(g) \/ Check(g) \/ WLock(g) \/ Write(g) \/ Put(g)
Wr == WTake \/ WExit \/ WLk \/ WPlace \/ WTick \/ WFlush \/ WWrite
Next == (\E g \in Senders : Snd(g)) \/ Wr \/ Peer \/ Stop \/ CloseSock \/ Report
Spec == Init /\ [][Next]_vars
Live == Spec /\ (\A g \in Senders : WF_vars(Snd(g))) /\ WF_vars(Wr) /\ WF_vars(WTick) /\ WF_vars(Peer) /\ WF_vars(CloseSock) /\ WF_vars(Report)

NotTorn == \A k \in 1..Len(asm) : asm[k] # Torn
\* where the design is about to return or deliver, the contract allows it
Allowed == /\ \A g \in Senders : /\ pc[g] = "check" /\ NotOpen => S!CanRet(cur[g], "err")
                                 /\ pc[g] = "write" /\ ~closed /\ off[g] = Size => S!CanRet(cur[g], "ok")
                                 /\ pc[g] = "put" /\ Len(q) < QLen => S!CanRet(cur[g], "ok")
           /\ Len(asm) = Size - 1 /\ sock # <<>> /\ Append(asm, Head(sock)) = Units(Head(sock)[1]) => S!CanRecv(Head(sock)[1])
LateFails == \A n \in DOMAIN calls : calls[n].late => calls[n].r # "ok"
\* at rest: every call has returned; if the connection is open everything accepted has arrived
AllReturn == <>[](cancel => S!Returned)
AllDelivered == <>[](cst = "open" => S!Returned /\ S!Delivered)
=============================================================================
