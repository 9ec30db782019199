------------------------------ MODULE ShardMap ------------------------------
(* The implementation's map: keys spread over shards, each with a readers-writer lock; compound operations read, decide and
   write inside the lock; listing runs shard by shard, key by key, under the shard's read lock; clearing lists and then removes
   each key found.  abs is the contract's map, changed at one step of each operation.  Locked = FALSE: no locks. *)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS Threads, Keys, Shards, MaxOps, Locked
M == INSTANCE MapOps
VARIABLES map, abs, rd, wr, pc, n, hist
vars == <<map, abs, rd, wr, pc, n, hist>>
Shard(k) == k % Shards
Vals == {1, 2}
Kinds == {"get", "set", "setnx", "rm", "rmcb", "pop"}
Idle == [st |-> "idle"]
Init == /\ map = [k \in Keys |-> 0] /\ abs = map /\ rd = [s \in 0..(Shards - 1) |-> {}] /\ wr = [s \in 0..(Shards - 1) |-> 0]
        /\ pc = [t \in Threads |-> Idle] /\ n = 0 /\ hist = [t \in Threads |-> [k \in Keys |-> {}]]
Write(kind) == kind \notin {"get"}
\* hist[t][k]: the values key k has held since t's whole-map call began
Record(m2) == hist' = [t \in Threads |-> [k \in Keys |-> hist[t][k] \cup {m2[k]}]]
Begin(t) == /\ pc[t].st = "idle" /\ n < MaxOps /\ n' = n + 1
            /\ \/ \E kind \in Kinds, k \in Keys, a \in Vals : pc' = [pc EXCEPT ![t] = [st |-> "want", kind |-> kind, k |-> k, a |-> a, v |-> 0]] /\ UNCHANGED hist
               \/ \E kind \in {"items", "clear"} : pc' = [pc EXCEPT ![t] = [st |-> "list", kind |-> kind, s |-> 0, held |-> FALSE, left |-> {}, got |-> {}]]
                                                   /\ hist' = [hist EXCEPT ![t] = [k \in Keys |-> {map[k]}]]
            /\ UNCHANGED <<map, abs, rd, wr>>
CanR(s) == ~Locked \/ wr[s] = 0
CanW(s) == ~Locked \/ (wr[s] = 0 /\ rd[s] = {})
Acquire(t) == /\ pc[t].st = "want" /\ LET s == Shard(pc[t].k) IN
                 IF Write(pc[t].kind) THEN CanW(s) /\ wr' = [wr EXCEPT ![s] = t] /\ UNCHANGED rd ELSE CanR(s) /\ rd' = [rd EXCEPT ![s] = @ \cup {t}] /\ UNCHANGED wr
              /\ pc' = [pc EXCEPT ![t].st = "read"] /\ UNCHANGED <<map, abs, n, hist>>
Read(t) == /\ pc[t].st = "read" /\ pc' = [pc EXCEPT ![t].st = "act", ![t].v = map[pc[t].k]] /\ UNCHANGED <<map, abs, rd, wr, n, hist>>
\* acts on the value it has read; the result is what it read.  The contract's map changes here
Result(x) == CASE x.kind \in {"get", "pop", "rmcb"} -> x.v [] x.kind = "setnx" -> (IF x.v = 0 THEN 1 ELSE 0) [] OTHER -> 0
Act(t) == /\ pc[t].st = "act"
          /\ LET x == pc[t] nv == M!After(x.kind, x.v, x.a) IN
             /\ map' = (IF x.kind = "get" \/ (x.kind = "setnx" /\ x.v # 0) \/ (x.kind = "rmcb" /\ x.a # 1) THEN map ELSE [map EXCEPT ![x.k] = nv])
             /\ abs' = [abs EXCEPT ![x.k] = M!After(x.kind, abs[x.k], x.a)]
             /\ Assert(M!Allowed(x.kind, abs[x.k], x.a, Result(x)), <<"not linearizable", x, abs>>)
             /\ Record(map')
          /\ pc' = [pc EXCEPT ![t].st = "rel"] /\ UNCHANGED <<rd, wr, n>>
Release(t) == /\ pc[t].st = "rel" /\ LET s == Shard(pc[t].k) IN wr' = [wr EXCEPT ![s] = IF @ = t THEN 0 ELSE @] /\ rd' = [rd EXCEPT ![s] = @ \ {t}]
              /\ pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED <<map, abs, n, hist>>
\* listing
LTake(t) == /\ pc[t].st = "list" /\ ~pc[t].held /\ pc[t].s < Shards /\ CanR(pc[t].s) /\ rd' = [rd EXCEPT ![pc[t].s] = @ \cup {t}]
            /\ pc' = [pc EXCEPT ![t].held = TRUE, ![t].left = {k \in Keys : Shard(k) = pc[t].s}] /\ UNCHANGED <<map, abs, wr, n, hist>>
LKey(t) == /\ pc[t].st = "list" /\ pc[t].held /\ pc[t].left # {}
           /\ \E k \in pc[t].left : pc' = [pc EXCEPT ![t].left = @ \ {k}, ![t].got = @ \cup {<<k, map[k]>>}]
           /\ UNCHANGED <<map, abs, rd, wr, n, hist>>
LDrop(t) == /\ pc[t].st = "list" /\ pc[t].held /\ pc[t].left = {} /\ rd' = [rd EXCEPT ![pc[t].s] = @ \ {t}]
            /\ pc' = [pc EXCEPT ![t].held = FALSE, ![t].s = @ + 1] /\ UNCHANGED <<map, abs, wr, n, hist>>
LDone(t) == /\ pc[t].st = "list" /\ pc[t].s = Shards
            /\ Assert(\A g \in pc[t].got : g[2] \in hist[t][g[1]], <<"a value never held", pc[t], hist[t]>>)
            /\ pc' = [pc EXCEPT ![t] = IF pc[t].kind = "items" THEN Idle ELSE [st |-> "clear", ks |-> {g[1] : g \in {x \in pc[t].got : x[2] # 0}}]]
            /\ UNCHANGED <<map, abs, rd, wr, n, hist>>
Clear(t) == /\ pc[t].st = "clear"
            /\ IF pc[t].ks = {} THEN /\ pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED <<map, abs, hist>>
                                     /\ Assert(\A k \in Keys : 0 \in hist[t][k], <<"not cleared", hist[t]>>)
               ELSE \E k \in pc[t].ks : /\ CanW(Shard(k)) /\ map' = [map EXCEPT ![k] = 0] /\ abs' = [abs EXCEPT ![k] = 0]
                                        /\ pc' = [pc EXCEPT ![t].ks = @ \ {k}] /\ Record(map')
            /\ UNCHANGED <<rd, wr, n>>
Next == \E t \in Threads : Begin(t) \/ Acquire(t) \/ Read(t) \/ Act(t) \/ Release(t) \/ LTake(t) \/ LKey(t) \/ LDrop(t) \/ LDone(t) \/ Clear(t)
Spec == Init /\ [][Next]_vars
Same == map = abs
=============================================================================
