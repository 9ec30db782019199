------------------------------ MODULE CodecGen ------------------------------
EXTENDS Integers, Sequences, GenLib
VARIABLES n
Init == n = 0
Byte == {0, 1, 2, 127, 128, 200, 255}
Next == /\ n = 0 /\ n' = 1
        /\ Emit([kind |-> Pick({"tlv", "ltv", "htlv"}), n |-> Pick({0, 1, 2, 3, 5, 8, 40, 127, 128, 200, 254, 255, 256, 300}),
                 s |-> Pick(0..99999), id |-> <<Pick(Byte), Pick(Byte), Pick(Byte), Pick(Byte)>>, dmg |-> Pick({0, 0, 1, 2, 3, 7, 100, 256, 257})])
Spec == Init /\ [][Next]_n
=============================================================================
