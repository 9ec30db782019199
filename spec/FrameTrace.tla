----------------------------- MODULE FrameTrace -----------------------------
(* Validates byte-level traces of the real frame decoder, codecs and packers. *)
EXTENDS Frame, TraceLib
VARIABLES d
vars == <<tid, i, d>>

Init == TraceInit /\ d = NewDec

TFeed == /\ IsEvent("feed")
         /\ LET r == Feed(Cfg, d, E.b) IN
            /\ d' = r.d
            /\ IF E.panic = 1 THEN r.d.bad /\ r.out = <<>> /\ E.out = <<>>
                              ELSE E.out = r.out /\ (r.d.bad => (d.bad \/ r.out # <<>>))
TPack == /\ IsEvent("pack") /\ E.out = Pack(E.kind, E.id, E.d) /\ UNCHANGED d
THead == /\ IsEvent("unpack")          \* header decoding of the packer
         /\ LET f == Pack(E.kind, E.id, E.d) IN E.oid = E.id /\ E.olen = Len(E.d) /\ E.head = 8
         /\ UNCHANGED d
TCodec == /\ IsEvent("codec")
          /\ LET c == Codec(E.kind, E.b) IN
             /\ E.pass = c.pass
             /\ c.pass = 1 => E.id = c.id /\ E.data = c.data /\ E.body = c.body
          /\ UNCHANGED d
Next == TFeed \/ TPack \/ THead \/ TCodec
Spec == Init /\ [][Next]_vars
=============================================================================
