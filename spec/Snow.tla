-------------------------------- MODULE Snow --------------------------------
(* Id generators (C17).  Ids are triples of numbers, compared lexicographically.
     top[g]   the largest id generator g has returned;  all: every id returned by any generator, as runs of consecutive ids
     low[t]   for a call in progress in thread t: the largest id its generator had returned when the call began
     peak     the latest time the clock had shown before it was set back; now: what it shows *)
EXTENDS Integers, Sequences
VARIABLES top, all, low, peak, now
snowVars == <<top, all, low, peak, now>>
Less(x, y) == \/ x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2]) \/ (x[1] = y[1] /\ x[2] = y[2] /\ x[3] < y[3])
Max(x, y) == IF Less(x, y) THEN y ELSE x
Zero == <<-1, 0, 0>>
Empty == [x \in {} |-> Zero]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
SnInit == top = Empty /\ all = {} /\ low = Empty /\ peak = 0 /\ now = 0
\* a generator with worker number w: refused unless it fits into ten bits
SnNew(g, w, ok) == ok = (w >= 0 /\ w <= 1023) /\ top' = (IF ok THEN Put(top, g, Zero) ELSE top) /\ UNCHANGED <<all, low, peak, now>>
SnClock(from, to) == from >= now /\ now' = to /\ peak' = (IF from > peak THEN from ELSE peak) /\ UNCHANGED <<top, all, low>>
SnCall(t, g, c) == c >= now /\ now' = c /\ low' = Put(low, t, [g |-> g, id |-> top[g], late |-> c < peak]) /\ UNCHANGED <<top, all, peak>>
\* runs <<first, last>> of consecutive ids
Free(f, l) == {r \in all : ~Less(r[2], f) /\ ~Less(l, r[1])} = {}
SnId(t, id) == LET x == low[t] IN
               /\ Less(x.id, id) /\ Free(id, id)
               /\ top' = [top EXCEPT ![x.g] = Max(@, id)] /\ all' = all \cup {<<id, id>>} /\ UNCHANGED <<low, peak, now>>
\* an error only while the clock is behind
SnErr(t) == (IF t \in DOMAIN low THEN low[t].late ELSE FALSE) /\ UNCHANGED snowVars
\* a sequence of ids drawn by one caller alone, as runs of consecutive ids
SnBatch(g, c, e, runs) == /\ c >= now /\ c >= peak /\ e >= c /\ now' = e
                       /\ runs # <<>> /\ Less(top[g], runs[1][1]) /\ {j \in 1..(Len(runs) - 1) : ~Less(runs[j][2], runs[j + 1][1])} = {}
                       /\ {j \in 1..Len(runs) : ~Free(runs[j][1], runs[j][2])} = {}
                       /\ top' = [top EXCEPT ![g] = runs[Len(runs)][2]] /\ all' = all \cup {runs[j] : j \in 1..Len(runs)} /\ UNCHANGED <<low, peak>>
=============================================================================
