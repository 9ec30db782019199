----------------------------- MODULE SnowDesign -----------------------------
(* The implementation: timestamp, worker number and sequence number; a mutex; when the sequence numbers of a millisecond are
   used up it waits for the clock to pass the last timestamp.  The clock goes wherever it likes, also during a call.
   Checked against the contract Snow; Wait = FALSE: it does not wait when the sequence numbers wrap. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Gens, Threads, MaxT, SeqN, MaxIds, Wait
VARIABLES clock, hi, last, seq, mu, pc, top, all, low, peak, now
S == INSTANCE Snow
sv == <<top, all, low, peak, now>>
vars == <<clock, hi, last, seq, mu, pc, top, all, low, peak, now>>
Init == /\ clock = 0 /\ hi = 0 /\ last = [g \in Gens |-> -1] /\ seq = [g \in Gens |-> 0] /\ mu = [g \in Gens |-> 0] /\ pc = [t \in Threads |-> [st |-> "idle", g |-> 0]]
        /\ top = [g \in Gens |-> S!Zero] /\ all = {} /\ low = S!Empty /\ peak = 0 /\ now = 0
Tick == \E c \in 0..MaxT : c # clock /\ clock' = c /\ hi' = (IF c > hi THEN c ELSE hi) /\ S!SnClock(clock, c) /\ UNCHANGED <<last, seq, mu, pc>>
Begin(t) == /\ pc[t].st = "idle" /\ Cardinality(all) < MaxIds
            /\ \E g \in Gens : pc' = [pc EXCEPT ![t] = [st |-> "lock", g |-> g]] /\ S!SnCall(t, g, clock) /\ UNCHANGED <<clock, hi, last, seq, mu>>
Lock(t) == pc[t].st = "lock" /\ mu[pc[t].g] = 0 /\ mu' = [mu EXCEPT ![pc[t].g] = t] /\ pc' = [pc EXCEPT ![t].st = "read"] /\ UNCHANGED <<clock, hi, last, seq>> /\ UNCHANGED sv
Done(t, ts, sq) == LET g == pc[t].g IN
  /\ last' = [last EXCEPT ![g] = ts] /\ seq' = [seq EXCEPT ![g] = sq] /\ mu' = [mu EXCEPT ![g] = 0] /\ pc' = [pc EXCEPT ![t].st = "idle"]
  /\ Assert(S!Less(low[t].id, <<ts, g, sq>>) /\ S!Free(<<ts, g, sq>>, <<ts, g, sq>>), <<"id not new or not larger", ts, g, sq, all>>)
  /\ S!SnId(t, <<ts, g, sq>>)
Read(t) == /\ pc[t].st = "read" /\ UNCHANGED <<clock, hi>>
           /\ LET g == pc[t].g ts == clock IN
              IF ts < last[g] THEN mu' = [mu EXCEPT ![g] = 0] /\ pc' = [pc EXCEPT ![t].st = "idle"] /\ UNCHANGED <<last, seq>> /\ UNCHANGED sv
                                   /\ Assert(clock < hi, "error although the clock is not behind")
              ELSE IF ts = last[g] /\ (seq[g] + 1) % SeqN = 0 /\ Wait THEN pc' = [pc EXCEPT ![t].st = "spin"] /\ UNCHANGED <<last, seq, mu>> /\ UNCHANGED sv
              ELSE Done(t, ts, IF ts = last[g] THEN (seq[g] + 1) % SeqN ELSE 0)
Spin(t) == pc[t].st = "spin" /\ clock > last[pc[t].g] /\ Done(t, clock, 0) /\ UNCHANGED <<clock, hi>>
Next == Tick \/ \E t \in Threads : Begin(t) \/ Lock(t) \/ Read(t) \/ Spin(t)
Spec == Init /\ [][Next]_vars
Unique == \A t \in Threads : pc[t].st = "idle" => TRUE
=============================================================================
