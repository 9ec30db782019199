------------------------------ MODULE FrameGen ------------------------------
(* Generates framing scenarios: a layout (or codec), a list of frames of chosen kinds and sizes relative to
   the limits of the layout, and a way of cutting the stream. *)
EXTENDS Frame, GenLib
CONSTANTS Depth, Damage      \* Damage = 1: include oversized, damaged and impossible frames
VARIABLES lf, items, done

Random(j) == [off |-> Pick({0, 1, 2, 3, 5}), len |-> Pick({1, 2, 3, 4, 8}), adj |-> Pick({-9, -4, -2, -1, 0, 1, 2, 5, -130, -250, -32770, -65400, -8388608, -16777000, -1000000000, -2147480000}),
              strip |-> Pick({0, 1, 2, 4, 7, 11}), max |-> Pick({12, 20, 60, 127, 128, 255, 256, 257, 300, 700, NoMax}), le |-> Pick({0, 1})]
\* the adjustment leaves room for lengths the field can express; large negative ones need large values in the field
Fits(l) == CASE l.len = 1 -> l.adj > -256 [] l.len = 2 -> l.adj > -65536 [] l.len = 3 -> l.adj > -16777216 [] OTHER -> TRUE
None == [off |-> 0, len |-> 0, adj |-> 0, strip |-> 0, max |-> 0, le |-> 0]
Init == lf = None /\ items = <<>> /\ done = FALSE
Layout == lf = None /\ (\E l \in {Random(0)} : lf' = IF l.max >= EndOff(l) + 1 /\ Fits(l) THEN l ELSE None) /\ UNCHANGED <<items, done>>

\* a total length the field can express
Expressible(t) == IF lf.len >= 4 THEN t >= lf.adj + EndOff(lf) ELSE LET v == t - lf.adj - EndOff(lf) IN v >= 0 /\ (lf.len = 3 => v < 16777216) /\ (lf.len = 1 => v < 256) /\ (lf.len = 2 => v < 65536)
\* "good": within the limits; "over": too long but complete; "cut": too long, never completes; "low"/"neg": impossible
Sizes == {EndOff(lf) + x : x \in 0..6} \cup {MinOf(lf.max, 900) - x : x \in 0..2} \cup {127, 128, 255, 256, 257, 300, 511, 512, 640} \cup {lf.strip + x : x \in 0..2}
GoodSizes == {t \in Sizes : t >= EndOff(lf) /\ t <= lf.max /\ t >= lf.strip /\ Expressible(t)}
OverSizes == {t \in {lf.max + x : x \in {1, 2, 7, 40, 300}} : t < 1100 /\ t >= EndOff(lf) /\ Expressible(t)}
Good == /\ GoodSizes # {} /\ items' = Append(items, [k |-> "good", n |-> Pick(GoodSizes), s |-> Pick(0..9999)])
Over == /\ Damage = 1 /\ OverSizes # {} /\ items' = Append(items, [k |-> "over", n |-> Pick(OverSizes), s |-> Pick(0..9999)])
\* the field says v; v + adj + end < end
Low  == /\ Damage = 1 /\ lf.adj < 0 /\ Len(items) > 1 /\ Pick(1..3) = 1
        /\ items' = Append(items, [k |-> "low", n |-> Pick({x \in {0, 1, (0 - lf.adj) \div 2, 0 - lf.adj - 1, 255, 65535} : x >= 0 /\ x < 0 - lf.adj /\ (lf.len = 1 => x < 256) /\ (lf.len = 2 => x < 65536)}), s |-> Pick(0..9999)])
Neg  == /\ Damage = 1 /\ lf.len = 8 /\ Len(items) > 1 /\ Pick(1..3) = 1
        /\ items' = Append(items, [k |-> "neg", n |-> Pick(0..99), s |-> Pick(0..9999)])
Short == /\ Damage = 1 /\ lf.strip > EndOff(lf) /\ Expressible(EndOff(lf)) /\ Len(items) > 1 /\ Pick(1..3) = 1
         /\ items' = Append(items, [k |-> "good", n |-> EndOff(lf), s |-> Pick(0..9999)])
Cut  == /\ Damage = 1 /\ lf.len >= 3 /\ lf.max < NoMax /\ Len(items) > 2 /\ Pick(1..4) = 1
        /\ items' = Append(items, [k |-> "cut", n |-> Pick({70000, 16000000}), s |-> Pick(0..9999)])
Add == ~done /\ lf # None /\ Len(items) < Depth /\ (Good \/ Over \/ Low \/ Neg \/ Short \/ Cut) /\ UNCHANGED <<lf, done>>
Finish == /\ ~done /\ lf # None /\ Len(items) >= Depth /\ done' = TRUE /\ UNCHANGED <<lf, items>>
          /\ Emit([lf |-> lf, items |-> items,
                   cut |-> Pick({"all", "one", "rand", "frame", "head", "tail1", "two", "big"}), seed |-> Pick(0..99999)])
Next == Layout \/ Add \/ Finish
Spec == Init /\ [][Next]_<<lf, items, done>>
=============================================================================
