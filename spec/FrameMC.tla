------------------------------ MODULE FrameMC ------------------------------
(* Exhaustive check of the framing design: every layout of a small family, every stream of at most
   MaxBytes bytes over Bytes, every way of cutting it into chunks. *)
EXTENDS Frame, TLC, FiniteSets
CONSTANTS Bytes, MaxBytes
VARIABLES lf, all, d, out

Layouts ==
  { l \in [off : {0, 1}, len : {1, 2}, adj : {-2, 0, 1}, strip : {0, 2}, max : {3, 4}, le : {0, 1}] : l.len = 1 => l.le = 0 }
  \cup { [off |-> 0, len |-> 8, adj |-> 0, strip |-> 8, max |-> 9, le |-> 0] }

vars == <<lf, all, d, out>>
Init == lf \in Layouts /\ all = <<>> /\ d = NewDec /\ out = <<>>
Chunk(c) == /\ Len(all) + Len(c) <= MaxBytes
            /\ LET r == Feed(lf, d, c) IN d' = r.d /\ out' = out \o r.out
            /\ all' = all \o c
            /\ UNCHANGED lf
Next == \/ \E b \in Bytes : Chunk(<<b>>)
        \/ \E b1 \in Bytes, b2 \in Bytes : Chunk(<<b1, b2>>)
        \/ \E b1 \in Bytes, b2 \in Bytes, b3 \in Bytes : Chunk(<<b1, b2, b3>>)
Spec == Init /\ [][Next]_vars

\* the result depends only on the bytes
ChunkIndependent == LET r == Feed(lf, NewDec, all) IN out = r.out /\ d.bad = r.d.bad /\ (~d.bad => d = r.d)
\* nothing is waiting that could have been delivered ("as soon as its last byte has arrived")
Prompt == ~d.bad /\ d.disc = 0 => AtFront(lf, d.buf).k = "wait"
\* a frame never exceeds the maximum and never includes stripped bytes
Sizes == \A i \in 1..Len(out) : Len(out[i]) <= lf.max - lf.strip
\* after an impossible frame nothing more is delivered
BadIsFinal == [][d.bad => (d'.bad /\ out' = out)]_vars

(* round trip: packing and decoding give back the frames, for all codecs *)
ASSUME \A kind \in {"tlv", "ltv", "htlv"}, b \in {<<>>, <<1>>, <<2, 255>>}, a \in {<<>>, <<7, 0>>}, x \in {0, 200} :
         LET id == <<0, 0, 0, x>>
             s  == Pack(kind, id, b) \o Pack(kind, id, a)
             r  == Feed(LayoutOf(kind), NewDec, s)
         IN /\ Len(r.out) = 2 /\ r.d = NewDec
            /\ Codec(kind, r.out[1]).pass = 1
            /\ Codec(kind, r.out[1]).id = id /\ Codec(kind, r.out[1]).body = b
            /\ Codec(kind, r.out[2]).id = id /\ Codec(kind, r.out[2]).body = a
=============================================================================
