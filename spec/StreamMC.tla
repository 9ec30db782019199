------------------------------ MODULE StreamMC ------------------------------
EXTENDS Stream, TLC
CONSTANTS MaxFrames
Frames == [k : {"good", "over", "crc", "bad", "cut"}, id : {1, 2}, len : {0}, sum : {0, 1}]
Init == SInit
Next == \/ \E f \in Frames : Len(sent) < MaxFrames /\ (f.k # "good" => f.id = 1 /\ f.sum = 0) /\ Send(f)
        \/ \E n \in 1..MaxFrames : Arrive(n)
        \/ queue # <<>> /\ Hand(Head(queue))
        \/ CloseBad
Fair == WF_svars(\E n \in 1..MaxFrames : Arrive(n)) /\ WF_svars(queue # <<>> /\ Hand(Head(queue)))
Spec == Init /\ [][Next]_svars /\ Fair
\* every deliverable frame is handed over eventually
Eventually == \A n \in 0..MaxFrames : [](Len(Deliverable(sent)) >= n => <>(Len(handed) >= n))
=============================================================================
