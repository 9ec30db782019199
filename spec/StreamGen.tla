------------------------------ MODULE StreamGen ------------------------------
(* End-to-end framing scenarios for the built-in codecs. *)
EXTENDS Integers, Sequences, GenLib
CONSTANTS Depth, Damage
VARIABLES codec, items, done
Init == codec = "" /\ items = <<>> /\ done = FALSE
Choose == codec = "" /\ codec' \in {"tlv", "ltv", "htlv"} /\ UNCHANGED <<items, done>>
Sizes == IF codec = "htlv" THEN {0, 1, 2, 3, 100, 126, 127, 128, 129, 200, 250, 254, 255}
         ELSE {0, 1, 2, 7, 8, 9, 100, 255, 256, 1000, 1015, 1016, 1017, 1024, 2040, 2048, 4096, 5000, 9000, 70000}
Ids == IF codec = "htlv" THEN {<<0,0,0,0>>, <<0,0,0,1>>, <<0,0,0,7>>, <<0,0,0,255>>, <<0,0,0,128>>}
       ELSE {<<0,0,0,0>>, <<0,0,0,1>>, <<0,0,0,7>>, <<0,0,1,0>>, <<0,1,0,0>>, <<1,2,3,4>>, <<255,255,255,255>>, <<128,0,0,0>>}
It(k) == [k |-> k, n |-> Pick(Sizes), id |-> Pick(Ids), s |-> Pick(0..99999)]
Good == items' = Append(items, It("good"))
CrcBad == Damage = 1 /\ codec = "htlv" /\ items' = Append(items, It("crc"))
Add == /\ codec # "" /\ ~done /\ Len(items) < Depth /\ (Good \/ CrcBad \/ CrcBad) /\ UNCHANGED <<codec, done>>
Finish == /\ codec # "" /\ ~done /\ Len(items) >= Depth /\ done' = TRUE /\ UNCHANGED <<codec, items>>
          /\ Emit([codec |-> codec, items |-> items, cut |-> Pick({"all", "one", "rand", "frame", "head", "tail1", "two", "big"}),
                   seed |-> Pick(0..99999), step |-> Pick({0, 0, 1})])
Next == Choose \/ Add \/ Finish
Spec == Init /\ [][Next]_<<codec, items, done>>
=============================================================================
