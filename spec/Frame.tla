------------------------------- MODULE Frame -------------------------------
(* Length-field framing and the three built-in codecs, at the level of bytes.

   A stream is a sequence of bytes (0..255) that arrives in arbitrary chunks.  A layout
     lf = [off, len, adj, strip, max, le]
   says where the length field is (off, width len, little endian if le = 1), how the length is
   adjusted, how many bytes are stripped, and how long a frame may be.  `Step` is one iteration of
   the decoder: it discards the rest of an oversized frame, waits for more bytes, emits one frame,
   or meets a length field that cannot be a frame.  Everything else is defined from it.

   Lengths that do not fit below 2^28 saturate at Huge: no stream of this size is ever complete. *)
EXTENDS Integers, Sequences, Bitwise, SequencesExt

Huge == 536870912          \* 2^29
NoMax == 1073741824        \* 2^30: a limit that is never reached

MinOf(a, b) == IF a < b THEN a ELSE b
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Drop(s, n) == SubSeq(s, n + 1, Len(s))
Take(s, n) == SubSeq(s, 1, n)

RECURSIVE BE(_, _)
\* value of big-endian bytes, saturating
BE(f, acc) == IF f = <<>> THEN acc
              ELSE BE(Tail(f), IF acc >= 1048576 THEN Huge ELSE acc * 256 + Head(f))

Field(lf, s) == LET f == SubSeq(s, lf.off + 1, lf.off + lf.len) IN IF lf.le = 1 THEN Rev(f) ELSE f

EndOff(lf) == lf.off + lf.len

\* the length field's value plus the adjustment plus the header, computed in 16-bit halves (TLC's integers have 32 bits)
Total(lf, f) ==
  LET k == IF Len(f) > 2 THEN Len(f) - 2 ELSE 0
      hi == BE(Take(f, k), 0) + (lf.adj \div 65536)
      lo == BE(Drop(f, k), 0) + (lf.adj % 65536)
  IN IF hi > 4096 THEN Huge ELSE IF hi < -4096 THEN -1 ELSE hi * 65536 + lo + EndOff(lf)

\* What the bytes at the front of s are: [k |-> "wait"|"bad"|"over"|"frame", n |-> total length]
AtFront(lf, s) ==
  IF Len(s) < EndOff(lf) THEN [k |-> "wait", n |-> 0]
  ELSE LET f     == Field(lf, s)
           neg   == lf.len = 8 /\ f[1] >= 128
           total == Total(lf, f)
       IN IF neg \/ total < EndOff(lf) THEN [k |-> "bad", n |-> 0]
          ELSE IF total > lf.max THEN [k |-> "over", n |-> total]
          ELSE IF Len(s) < total THEN [k |-> "wait", n |-> total]
          ELSE IF lf.strip > total THEN [k |-> "bad", n |-> 0]
          ELSE [k |-> "frame", n |-> total]

(* The decoder state: d = [buf, disc, bad]; buf are the bytes not consumed yet, disc how many bytes of
   an oversized frame are still to be skipped, bad whether an impossible frame is at the front. *)
NewDec == [buf |-> <<>>, disc |-> 0, bad |-> FALSE]

RECURSIVE Run(_, _, _)
\* runs the decoder until it needs more bytes; result [d, out]
Run(lf, d, out) ==
  IF d.disc > 0
  THEN IF Len(d.buf) = 0 THEN [d |-> d, out |-> out]
       ELSE LET n == MinOf(d.disc, Len(d.buf)) IN
            Run(lf, [buf |-> Drop(d.buf, n), disc |-> IF d.disc >= Huge THEN d.disc ELSE d.disc - n, bad |-> FALSE], out)
  ELSE LET r == AtFront(lf, d.buf) IN
       CASE r.k = "wait"  -> [d |-> d, out |-> out]
         [] r.k = "bad"   -> [d |-> [d EXCEPT !.bad = TRUE], out |-> out]
         [] r.k = "over"  -> Run(lf, [d EXCEPT !.disc = r.n], out)
         [] r.k = "frame" -> Run(lf, [d EXCEPT !.buf = Drop(d.buf, r.n)], Append(out, SubSeq(d.buf, lf.strip + 1, r.n)))

Feed(lf, d, chunk) == IF d.bad THEN [d |-> d, out |-> <<>>]
                      ELSE Run(lf, [d EXCEPT !.buf = d.buf \o chunk], <<>>)

---------------------------------------------------------------------------
(* Codecs.  Ids are kept as the 4 bytes (big endian) they are, because they may exceed TLC's integers. *)
TLVLayout  == [off |-> 4, len |-> 4, adj |-> 0, strip |-> 0, max |-> NoMax, le |-> 0]
LTVLayout  == [off |-> 0, len |-> 4, adj |-> 4, strip |-> 0, max |-> NoMax, le |-> 1]
HTLVLayout == [off |-> 2, len |-> 1, adj |-> 2, strip |-> 0, max |-> 260, le |-> 0]
LayoutOf(kind) == CASE kind = "tlv" -> TLVLayout [] kind = "ltv" -> LTVLayout [] kind = "htlv" -> HTLVLayout

U32(n) == <<(n \div 16777216) % 256, (n \div 65536) % 256, (n \div 256) % 256, n % 256>>

RECURSIVE CrcBits(_, _)
CrcBits(crc, k) == IF k = 0 THEN crc
                   ELSE CrcBits(IF crc % 2 = 1 THEN (crc \div 2) ^^ 40961 ELSE crc \div 2, k - 1)
Crc(s) == LET c == FoldLeft(LAMBDA crc, b : CrcBits(crc ^^ b, 8), 65535, s) IN <<c % 256, c \div 256>>

Pack(kind, id, data) ==
  CASE kind = "tlv"  -> id \o U32(Len(data)) \o data
    [] kind = "ltv"  -> Rev(U32(Len(data))) \o Rev(id) \o data
    [] kind = "htlv" -> LET h == <<id[3], id[4], Len(data)>> \o data IN h \o Crc(h)

\* What a codec makes of one whole frame: [pass, id, data, body]
Codec(kind, f) ==
  CASE kind = "tlv"  -> [pass |-> 1, id |-> Take(f, 4), data |-> Drop(f, 8), body |-> Drop(f, 8)]
    [] kind = "ltv"  -> [pass |-> 1, id |-> Rev(SubSeq(f, 5, 8)), data |-> Drop(f, 8), body |-> Drop(f, 8)]
    [] kind = "htlv" -> IF Crc(Take(f, Len(f) - 2)) = Drop(f, Len(f) - 2)
                        THEN [pass |-> 1, id |-> <<0, 0, 0, f[2]>>, data |-> f, body |-> SubSeq(f, 4, Len(f) - 2)]
                        ELSE [pass |-> 0, id |-> <<>>, data |-> <<>>, body |-> <<>>]
=============================================================================
