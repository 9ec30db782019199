----------------------------- MODULE NotifyDesign -----------------------------
(* The registry as implemented: shards, each guarded by a lock; a broadcast visits the shards one after the other and sends to the
   connections of a shard under its lock, a count adds up the sizes of the shards.  Snap = TRUE: the broadcast collects first and sends
   later.  Guarded = FALSE: the shard is not locked while it is visited.  Checked against the contract Notify. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Ids, Conns, Shards, Wides, MaxOps, Snap, Guarded, Stops
VARIABLES pc, acc, left, at, nops, reg, wide, soft
N == INSTANCE Notify
vars == <<pc, acc, left, at, nops, reg, wide, soft>>
Shard(n) == 1 + (n % Shards)
Init == /\ pc = [w \in Wides |-> "idle"] /\ acc = [w \in Wides |-> <<>>] /\ left = [w \in Wides |-> {}] /\ at = [w \in Wides |-> 0] /\ nops = 0
        /\ N!NoInit(Cardinality(Ids)) /\ soft = {}
Locked(s) == Guarded /\ \E w \in Wides : pc[w] = "visit" /\ at[w] = s
Set(n, c) == nops < MaxOps /\ ~Locked(Shard(n)) /\ N!NoSet(n, c) /\ nops' = nops + 1 /\ UNCHANGED <<pc, acc, left, at, soft>>
Del(n) == nops < MaxOps /\ ~Locked(Shard(n)) /\ N!NoDel(n) /\ nops' = nops + 1 /\ UNCHANGED <<pc, acc, left, at, soft>>
Stop(c) == Stops /\ c \notin soft /\ soft' = soft \cup {c} /\ UNCHANGED <<pc, acc, left, at, nops, reg, wide>>
Begin(w) == pc[w] = "idle" /\ pc' = [pc EXCEPT ![w] = "next"] /\ at' = [at EXCEPT ![w] = 0] /\ N!NoWideB(w) /\ UNCHANGED <<acc, left, nops, soft>>
NextShard(w) == /\ pc[w] = "next" /\ at[w] < Shards /\ at' = [at EXCEPT ![w] = @ + 1] /\ pc' = [pc EXCEPT ![w] = "visit"]
                /\ left' = [left EXCEPT ![w] = {n \in Ids : Shard(n) = at[w] + 1}] /\ UNCHANGED <<acc, nops, reg, wide, soft>>
Visit(w) == /\ pc[w] = "visit" /\ left[w] # {} /\ UNCHANGED <<pc, at, nops, reg, wide, soft>>
            /\ \E n \in left[w] : /\ left' = [left EXCEPT ![w] = @ \ {n}]
                                  /\ acc' = (IF reg[n] # 0 /\ (Snap \/ reg[n] \notin soft) THEN [acc EXCEPT ![w] = Append(@, reg[n])] ELSE acc)
Leave(w) == pc[w] = "visit" /\ left[w] = {} /\ pc' = [pc EXCEPT ![w] = "next"] /\ UNCHANGED <<acc, left, at, nops, reg, wide, soft>>
Recv(w) == IF Snap THEN SelectSeq(acc[w], LAMBDA c : c \notin soft) ELSE acc[w]
End(w) == /\ pc[w] = "next" /\ at[w] = Shards /\ pc' = [pc EXCEPT ![w] = "end"] /\ UNCHANGED <<acc, left, at, nops, soft>>
          /\ IF w % 2 = 1 THEN Assert(ENABLED N!NoAllE(w, Recv(w), soft), <<"broadcast", w, Recv(w), wide[w]>>) /\ N!NoAllE(w, Recv(w), soft)
             ELSE Stops \/ (Assert(ENABLED N!NoNumE(w, Len(acc[w])), <<"count", w, acc[w], wide[w]>>) /\ N!NoNumE(w, Len(acc[w])))
Next == (\E n \in Ids : Del(n) \/ \E c \in Conns : Set(n, c)) \/ (\E c \in Conns : Stop(c)) \/ (\E w \in Wides : Begin(w) \/ NextShard(w) \/ Visit(w) \/ Leave(w) \/ End(w))
Spec == Init /\ [][Next]_vars
TypeOK == \A w \in Wides : Len(acc[w]) <= Cardinality(Ids)
=============================================================================
