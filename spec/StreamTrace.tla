----------------------------- MODULE StreamTrace -----------------------------
(* Validates end-to-end traces.  The arrival of bytes at the decoder is not observable: frames count as arrived
   when they have been sent, the hand-over of messages is observed. *)
EXTENDS Stream, TraceLib
vars == <<tid, i, sent, wire, queue, handed, closed>>
Init == TraceInit /\ SInit
F == [k |-> E.k, id |-> E.id, len |-> E.len, sum |-> E.sum]
TSend == /\ IsEvent("send") /\ sent' = Append(sent, F)
         /\ IF Stopped(wire) THEN UNCHANGED <<wire, queue>>
            ELSE wire' = wire + 1 /\ queue' = queue \o Deliverable(<<F>>)
         /\ UNCHANGED <<handed, closed>>
THand == IsEvent("hand") /\ Hand([id |-> E.id, len |-> E.len, sum |-> E.sum])
\* everything sent so far has had time to be handed over
TSettle == IsEvent("settle") /\ Settled /\ UNCHANGED svars
TClosed == IsEvent("closed") /\ CloseBad
TEnd == IsEvent("end") /\ UNCHANGED svars
Next == TSend \/ THand \/ TSettle \/ TClosed \/ TEnd
Spec == Init /\ [][Next]_vars
=============================================================================
