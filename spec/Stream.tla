------------------------------- MODULE Stream -------------------------------
(* One connection, end to end: the peer writes frames, the application is handed messages.

   A frame is [k, id, len, sum]: k = "good" (well formed), "over" (longer than allowed, complete), "crc" (fails
   its checksum), "cut" (longer than allowed and never completed) or "bad" (a length field that cannot be one).
   id is the message id (4 bytes), len and sum identify the bytes the application has to see.

   sent:   frames whose bytes have been written completely, in order
   wire:   how many of them have arrived at the decoder
   queue:  decoded messages waiting for their worker
   handed: what the application has been handed
   closed: the server has closed the connection *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES sent, wire, queue, handed, closed
svars == <<sent, wire, queue, handed, closed>>

Msg(f) == [id |-> f.id, len |-> f.len, sum |-> f.sum]
Stopped(w) == \E j \in 1..w : sent[j].k \in {"bad", "cut"}
RECURSIVE Deliverable(_)
\* what a stream of frames amounts to for the application
Deliverable(fs) == IF fs = <<>> THEN <<>>
                   ELSE IF Head(fs).k \in {"bad", "cut"} THEN <<>>
                   ELSE (IF Head(fs).k = "good" THEN <<Msg(Head(fs))>> ELSE <<>>) \o Deliverable(Tail(fs))
IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a

SInit == sent = <<>> /\ wire = 0 /\ queue = <<>> /\ handed = <<>> /\ closed = FALSE
Send(f) == sent' = Append(sent, f) /\ UNCHANGED <<wire, queue, handed, closed>>
\* the next complete frame reaches the decoder (n: several frames may arrive in one read)
Arrive(n) == /\ n >= 1 /\ wire + n <= Len(sent) /\ ~closed /\ ~Stopped(wire)
             /\ wire' = wire + n
             /\ queue' = queue \o Deliverable(SubSeq(sent, wire + 1, wire + n))
             /\ UNCHANGED <<sent, handed, closed>>
Hand(m) == /\ queue # <<>> /\ m = Head(queue)
           /\ handed' = Append(handed, m) /\ queue' = Tail(queue)
           /\ UNCHANGED <<sent, wire, closed>>
\* the server ends a connection on its own only because of a frame that cannot be one
CloseBad == /\ ~closed /\ \E j \in 1..wire : sent[j].k = "bad"
            /\ closed' = TRUE /\ UNCHANGED <<sent, wire, queue, handed>>
Settled == handed = Deliverable(sent)

\* the guarantee: always a prefix of what the bytes amount to
Exact == IsPrefixOf(handed, Deliverable(sent))
NoSpuriousClose == closed => \E j \in 1..Len(sent) : sent[j].k = "bad"
=============================================================================
