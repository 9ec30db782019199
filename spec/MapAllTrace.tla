----------------------------- MODULE MapAllTrace -----------------------------
(* The recorded history of the whole map, for calls that say only how many entries they saw: a counting call looks at every
   key once, at some instant of the call.  Calls: [id, atoms: keys -> atom, n]; cfg: keys. *)
EXTENDS MapOps, Sequences, FiniteSets, TraceLib
VARIABLES m, todo
vars == <<tid, i, m, todo>>
Init == TraceInit /\ m = [k \in 1..Traces[tid].cfg.keys |-> 0] /\ todo = {}
\* n = -1: not a counting call.  ks: the keys still to be looked at, seen: how many entries were seen so far
TCall == /\ IsEvent("call") /\ UNCHANGED m
         /\ todo' = todo \cup {[id |-> E.id, kind |-> E.kind, a |-> E.a, r |-> E.r, n |-> E.n, seen |-> 0,
                                ks |-> IF E.k = 0 THEN DOMAIN m ELSE {E.k}]}
TRet == /\ IsEvent("ret") /\ \A x \in todo : x.id = E.id => x.ks = {} /\ (x.n < 0 \/ x.seen = x.n)
        /\ todo' = {x \in todo : x.id # E.id} /\ UNCHANGED m
LinOne(x, k) == IF x.kind = "count" \/ x.kind = "empty"
                THEN /\ m' = m
                     /\ todo' = (todo \ {x}) \cup {[x EXCEPT !.ks = @ \ {k}, !.seen = IF x.kind = "empty" THEN (IF m[k] # 0 THEN 1 ELSE @) ELSE @ + (IF m[k] # 0 THEN 1 ELSE 0)]}
                ELSE /\ Allowed(x.kind, m[k], x.a, x.r) /\ m' = [m EXCEPT ![k] = After(x.kind, m[k], x.a)]
                     /\ todo' = (todo \ {x}) \cup {[x EXCEPT !.ks = @ \ {k}]}
Lin == /\ More /\ Ev[i].op = "ret" /\ \E x \in todo : \E k \in x.ks : LinOne(x, k)
       /\ Silent
Next == TCall \/ TRet \/ Lin
Spec == Init /\ [][Next]_vars
=============================================================================
