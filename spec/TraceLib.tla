------------------------------ MODULE TraceLib ------------------------------
(* Trace validation: a file of independent traces {id, cfg, ev}; TLC tries all of them in one run.
   Register t holds how far trace t could be explained; the postcondition prints the traces that could
   not be explained completely.  Run with -workers 1 and deadlock checking off. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
VARIABLES tid, i

Traces == ndJsonDeserialize(IOEnv.TRACE_FILE)
NTraces == Len(Traces)
ASSUME \A t \in 1..NTraces : TLCSet(t, 0)

Ev  == Traces[tid].ev
Cfg == Traces[tid].cfg
E   == Ev[i]
TraceInit == tid \in 1..NTraces /\ i = 1
IsEvent(op) == i <= Len(Ev) /\ Ev[i].op = op /\ i' = i + 1 /\ tid' = tid
More == i <= Len(Ev)
Silent == UNCHANGED <<tid, i>>

\* CONSTRAINT: remembers progress
Progress == IF TLCGet(tid) < i THEN TLCSet(tid, i) ELSE TRUE
\* POSTCONDITION
Accepted == /\ \A t \in 1..NTraces :
                 IF TLCGet(t) = Len(Traces[t].ev) + 1 THEN TRUE ELSE PrintT(<<"REJECT", t, TLCGet(t)>>)
            /\ PrintT("TRACECHECK done")
=============================================================================
