------------------------------ MODULE ClientLife ------------------------------
(* A client: attempts to connect, its connections, stopping (C21).
     out[n]   attempt n, not resolved yet: q - acc (must connect), ref (must report an error), hold (the server has not answered yet),
              dead (a Stop came after the attempt: may still connect or fail, but nothing may remain of it),
              loose (a Stop was concurrent with the call: may go either way);  ret - the call has returned
     cs[k]    connection k: hb, sb - start and stop hook (0 not yet, 1 running, 2 over), end - must it end ("no", "yes", "may"),
              eof - the peer has seen its end, lossy - messages may be lost, strict - its start hook must run, up - the peer has accepted it,
              sent - messages sent on it, got - those handled
     nstop    Stop calls under way;  silent: the error channel is closed (a Stop has been called) *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES out, cs, nstop, silent
clVars == <<out, cs, nstop, silent>>
ClInit == out = [n \in {} |-> 0] /\ cs = [k \in {} |-> 0] /\ nstop = 0 /\ silent = FALSE
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
\* attempt n begins while the server is in this mode; calls: those in progress
ClAtt(n, mode) == /\ out' = Put(out, n, [q |-> IF nstop > 0 \/ (silent /\ mode = "ref") THEN "loose" ELSE mode, ret |-> FALSE])
                  /\ UNCHANGED <<cs, nstop, silent>>
ClAttRet(n) == /\ out' = (IF n \in DOMAIN out THEN [out EXCEPT ![n].ret = TRUE] ELSE out) /\ UNCHANGED <<cs, nstop, silent>>
Turn(p, q) == [n \in DOMAIN out |-> IF out[n].q = p THEN [out[n] EXCEPT !.q = q] ELSE out[n]]
\* the server answers the attempts it held, or turns them away
ClRelease == out' = Turn("hold", "acc") /\ UNCHANGED <<cs, nstop, silent>>
ClBreak == out' = Turn("hold", IF silent THEN "loose" ELSE "ref") /\ UNCHANGED <<cs, nstop, silent>>
\* an attempt with this status is resolved
Drop(q, r) == LET ns == {n \in DOMAIN out : out[n].q = q /\ out[n].ret = r} IN
              ns # {} /\ out' = [n \in DOMAIN out \ {CHOOSE n \in ns : TRUE} |-> out[n]]
ClErr == /\ \E q \in {"ref", "dead", "loose"}, r \in BOOLEAN : Drop(q, r)
         /\ UNCHANGED <<cs, nstop, silent>>
\* the peer reset the connection so early that connecting failed
ClErrReset == \E k \in DOMAIN cs : cs[k].up /\ cs[k].reset /\ cs[k].hb = 0 /\ cs' = [cs EXCEPT ![k] = [@ EXCEPT !.hb = 2, !.sb = 2, !.strict = FALSE]] /\ UNCHANGED <<out, nstop, silent>>
\* the connection shows itself for the first time
Fresh(q) == [hb |-> 0, sb |-> 0, end |-> CASE q = "dead" -> "yes" [] q = "loose" -> "may" [] OTHER -> "no",
             eof |-> FALSE, lossy |-> q # "acc", strict |-> q = "acc", up |-> FALSE, reset |-> FALSE, sent |-> 0, got |-> {}]
\* f: the new value of the record, given the old one
Touch(k, F(_)) == IF k \in DOMAIN cs THEN cs' = [cs EXCEPT ![k] = F(@)] /\ UNCHANGED <<out, nstop, silent>>
                  ELSE \E q \in {"acc", "dead", "loose"}, r \in BOOLEAN : Drop(q, r) /\ cs' = Put(cs, k, F(Fresh(q))) /\ UNCHANGED <<nstop, silent>>
ClUp(k) == (k \in DOMAIN cs => ~cs[k].up) /\ Touch(k, LAMBDA c : [c EXCEPT !.up = TRUE])
\* the same when it is known which attempt it is
ClUpOf(k, n) == /\ k \notin DOMAIN cs /\ n \in DOMAIN out /\ out[n].q \in {"acc", "dead", "loose"}
                /\ out' = [m \in DOMAIN out \ {n} |-> out[m]] /\ cs' = Put(cs, k, [Fresh(out[n].q) EXCEPT !.up = TRUE]) /\ UNCHANGED <<nstop, silent>>
ClErrOf(n) == n \in DOMAIN out /\ out[n].q \in {"ref", "dead", "loose"} /\ out' = [m \in DOMAIN out \ {n} |-> out[m]] /\ UNCHANGED <<cs, nstop, silent>>
ClStartB(k) == (k \in DOMAIN cs => cs[k].hb = 0) /\ Touch(k, LAMBDA c : [c EXCEPT !.hb = 1])
ClStartE(k) == k \in DOMAIN cs /\ cs[k].hb = 1 /\ Touch(k, LAMBDA c : [c EXCEPT !.hb = 2])
ClStopB(k) == k \in DOMAIN cs /\ cs[k].hb = 2 /\ cs[k].sb = 0 /\ cs[k].end # "no" /\ Touch(k, LAMBDA c : [c EXCEPT !.sb = 1])
ClStopE(k) == k \in DOMAIN cs /\ cs[k].sb = 1 /\ Touch(k, LAMBDA c : [c EXCEPT !.sb = 2])
ClEof(k) == k \in DOMAIN cs /\ cs[k].end # "no" /\ Touch(k, LAMBDA c : [c EXCEPT !.eof = TRUE])
ClSend(k) == k \in DOMAIN cs /\ Touch(k, LAMBDA c : [c EXCEPT !.sent = @ + 1])
ClGot(k, j) == k \in DOMAIN cs /\ j \in 1..cs[k].sent /\ j \notin cs[k].got /\ Touch(k, LAMBDA c : [c EXCEPT !.got = @ \cup {j}])
ClPeerEnds(k, how) == k \in DOMAIN cs /\ Touch(k, LAMBDA c : [c EXCEPT !.end = "yes", !.lossy = @ \/ how = "abort", !.reset = how = "abort"])
ClStop == /\ out' = [n \in DOMAIN out |-> [out[n] EXCEPT !.q = IF @ = "loose" \/ ~out[n].ret THEN "loose" ELSE "dead"]]
          /\ cs' = [k \in DOMAIN cs |-> [cs[k] EXCEPT !.end = "yes", !.lossy = TRUE, !.strict = @ /\ cs[k].hb > 0]]
          /\ nstop' = nstop + 1 /\ silent' = TRUE
\* ms: how long the call took
ClStopped(ms) == nstop > 0 /\ ms < 2000 /\ nstop' = nstop - 1 /\ UNCHANGED <<out, cs, silent>>
\* nothing happens any more
Alive(c) == ~c.eof /\ c.hb = 2 /\ c.sb = 0
Over(c) == c.hb = c.sb /\ c.hb # 1 /\ (c.up => c.eof)
Ok(c) == /\ (c.strict => c.hb = 2 \/ (c.reset /\ silent))   \* connecting failed, and nobody hears of it
         /\ CASE c.end = "yes" -> Over(c) [] c.end = "no" -> Alive(c) [] OTHER -> Over(c) \/ Alive(c)
         /\ (~c.lossy => c.got = 1..c.sent)
ClQuiet == {n \in DOMAIN out : out[n].q \in {"acc", "ref"} \/ ~out[n].ret} = {} /\ nstop = 0 /\ {k \in DOMAIN cs : ~Ok(cs[k])} = {} /\ UNCHANGED clVars
=============================================================================
