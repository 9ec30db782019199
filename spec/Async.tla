-------------------------------- MODULE Async --------------------------------
(* Asynchronous operations and their completions (C18).
     id[o], pred[o]   operation o: its id; the operations of the same id whose submission had returned when o's began
     os[o]            "sub" (submitted), "run", "end"
     cand[r], fin[r]  result r: the values that may be the first one set (their call began before any had returned);
                      whether a call that sets it has returned.  reg[r], regd[r]: the same for registered completions
     val[r]           the value somebody has seen;  done[r]: the completion has run
     busy[c], wk[c]   connection c: is something being run for it, and by which worker  *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES id, pred, os, subd, cand, fin, reg, regd, val, done, busy, wk
asyncVars == <<id, pred, os, subd, cand, fin, reg, regd, val, done, busy, wk>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
E0 == [x \in {} |-> 0]
None == -1
Nil == -2 \* no value yet, or the value nil
AsInit(NR, NC) == /\ id = E0 /\ pred = E0 /\ os = E0 /\ subd = {}
                  /\ cand = [r \in 1..NR |-> {}] /\ fin = [r \in 1..NR |-> FALSE] /\ reg = [r \in 1..NR |-> {}] /\ regd = [r \in 1..NR |-> FALSE]
                  /\ val = [r \in 1..NR |-> None] /\ done = [r \in 1..NR |-> FALSE] /\ busy = [c \in 1..NC |-> FALSE] /\ wk = [c \in 1..NC |-> 0]
ops == <<id, pred, os, subd>>
res == <<cand, fin, reg, regd, val, done>>
con == <<busy, wk>>
\* operations
AsSub(o, n) == /\ id' = Put(id, o, n) /\ pred' = Put(pred, o, {p \in subd : id[p] = n}) /\ os' = Put(os, o, "sub") /\ UNCHANGED <<subd, res, con>>
AsSubd(o) == subd' = subd \cup {o} /\ UNCHANGED <<id, pred, os, res, con>>
AsOpB(o) == /\ o \in DOMAIN os /\ os[o] = "sub"
            /\ {p \in pred[o] : os[p] # "end"} = {}
            /\ {p \in DOMAIN os : os[p] = "run" /\ id[p] = id[o]} = {}
            /\ os' = [os EXCEPT ![o] = "run"] /\ UNCHANGED <<id, pred, subd, res, con>>
AsOpE(o) == os[o] = "run" /\ os' = [os EXCEPT ![o] = "end"] /\ UNCHANGED <<id, pred, subd, res, con>>
\* n operations submitted one after the other: in this order they ran (runs of consecutive numbers)
AsBurst(n, runs) == runs = <<<<1, n>>>> /\ UNCHANGED asyncVars
\* results and completions
AsSetB(r, v) == cand' = (IF fin[r] THEN cand ELSE [cand EXCEPT ![r] = @ \cup {v}]) /\ UNCHANGED <<fin, reg, regd, val, done, ops, con>>
AsSetE(r) == fin' = [fin EXCEPT ![r] = TRUE] /\ UNCHANGED <<cand, reg, regd, val, done, ops, con>>
AsOnB(r, f) == reg' = (IF regd[r] THEN reg ELSE [reg EXCEPT ![r] = @ \cup {f}]) /\ UNCHANGED <<cand, fin, regd, val, done, ops, con>>
AsOnE(r) == regd' = [regd EXCEPT ![r] = TRUE] /\ UNCHANGED <<cand, fin, reg, val, done, ops, con>>
\* somebody looks at the result: before: whether a value had been set (call returned) when the look began
Sees(r, v) == v \in cand[r] /\ val[r] \in {None, v}
AsGet(r, v, before) == /\ (IF v = Nil /\ ~before THEN UNCHANGED val ELSE Sees(r, v) /\ val' = [val EXCEPT ![r] = v])
                       /\ UNCHANGED <<cand, fin, reg, regd, done, ops, con>>
Serve(c, w) == busy[c] = FALSE /\ wk[c] \in {0, w} /\ busy' = [busy EXCEPT ![c] = TRUE] /\ wk' = [wk EXCEPT ![c] = w]
Unserve(c) == busy[c] = TRUE /\ busy' = [busy EXCEPT ![c] = FALSE] /\ wk' = wk
AsCompB(r, f, v, c, w) == /\ ~done[r] /\ f \in reg[r] /\ Sees(r, v) /\ Serve(c, w)
                          /\ done' = [done EXCEPT ![r] = TRUE] /\ val' = [val EXCEPT ![r] = v] /\ UNCHANGED <<cand, fin, reg, regd, ops>>
AsCompE(c) == Unserve(c) /\ UNCHANGED <<res, ops>>
AsMsgB(c, w) == Serve(c, w) /\ UNCHANGED <<res, ops>>
AsMsgE(c) == Unserve(c) /\ UNCHANGED <<res, ops>>
\* at rest
AsQuiet == /\ {o \in DOMAIN os : os[o] # "end"} = {} /\ {r \in DOMAIN fin : fin[r] /\ regd[r] /\ ~done[r]} = {} /\ {c \in DOMAIN busy : busy[c]} = {}
           /\ UNCHANGED asyncVars
=============================================================================
