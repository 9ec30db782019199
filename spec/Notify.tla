-------------------------------- MODULE Notify --------------------------------
(* Notification by registered id (C20).
     reg[n]     the connection registered under id n (0: none)
     wide[k]    a call k that looks at all registrations (broadcast, count): may - the registrations <<id, connection>> there at
                some time during the call, must - those there throughout, ids - the ids registered throughout
   How often a connection received the message of a call is a function D (connections that received nothing are left out);
   soft: connections that ended while the message was on its way.  *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES reg, wide
notifyVars == <<reg, wide>>
NoInit(NI) == reg = [n \in 1..NI |-> 0] /\ wide = [k \in {} |-> 0]
Regs == {<<n, reg[n]>> : n \in {m \in DOMAIN reg : reg[m] # 0}}
NIds == {m \in DOMAIN reg : reg[m] # 0}
D(del, c) == Cardinality({j \in DOMAIN del : del[j] = c})
\* single registrations
NoSet(n, c) == /\ reg' = [reg EXCEPT ![n] = c]
               /\ wide' = [k \in DOMAIN wide |-> [may |-> wide[k].may \cup {<<n, c>>}, must |-> {p \in wide[k].must : p[1] # n \/ p[2] = c}, ids |-> wide[k].ids]]
NoDel(n) == /\ reg' = [reg EXCEPT ![n] = 0]
            /\ wide' = [k \in DOMAIN wide |-> [may |-> wide[k].may, must |-> {p \in wide[k].must : p[1] # n}, ids |-> wide[k].ids \ {n}]]
NoHas(n, r) == r = (IF reg[n] = 0 THEN 0 ELSE 1)
NoGet(n, r) == r = reg[n]
\* to one id: r = 1: returned an error
Reaches(c, r, del, soft) == CASE c = 0 -> r = 1 /\ del = <<>>
                              [] c \in soft -> del \in {<<>>, <<c>>}
                              [] OTHER -> r = 0 /\ del = <<c>>
NoOne(n, r, del, soft) == Reaches(reg[n], r, del, soft)
\* to all
NoWideB(k) == /\ wide' = [x \in DOMAIN wide \cup {k} |-> IF x = k THEN [may |-> Regs, must |-> Regs, ids |-> NIds] ELSE wide[x]] /\ UNCHANGED reg
Drop(k) == wide' = [x \in DOMAIN wide \ {k} |-> wide[x]] /\ UNCHANGED reg
NoAllE(k, del, soft) == /\ {j \in DOMAIN del : D(del, del[j]) > Cardinality({p \in wide[k].may : p[2] = del[j]})} = {}
                        /\ {p \in wide[k].must : p[2] \notin soft /\ D(del, p[2]) = 0} = {}
                        /\ Drop(k)
NoNumE(k, r) == Cardinality(wide[k].ids) <= r /\ r <= Cardinality({p[1] : p \in wide[k].may}) /\ Drop(k)
=============================================================================
