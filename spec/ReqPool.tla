------------------------------- MODULE ReqPool -------------------------------
(* The implementation's request objects: taken from a pool (or made) and reset for each message, filled by the decoder,
   changed by handlers, returned to the pool after a handler that ended normally - not after a panic or without a route.
   Checked: what handlers and copies see is what the message owns.  ResetResp = FALSE: the reset forgets the response
   (a defect found and repaired), CopyShares = TRUE: a copy shares the context map. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Msgs, Objs, MaxOps, ResetResp, CopyShares, Icept
VARIABLES free, obj, of, st, own, cp, ops
vars == <<free, obj, of, st, own, cp, ops>>
\* obj[o]: [m, resp, ctx] as stored; own[m]: what message m should see; cp: copies [o, snap, live]
None == 0
Init == /\ free = {} /\ obj = [o \in Objs |-> [m |-> None, resp |-> 0, ctx |-> {}]] /\ of = [m \in Msgs |-> None]
        /\ st = [m \in Msgs |-> "new"] /\ own = [m \in Msgs |-> [m |-> m, resp |-> 0, ctx |-> {}]] /\ cp = {} /\ ops = 0
Used == {of[m] : m \in Msgs} \ {None}
\* an object never used, or one from the pool
Get(m) == /\ st[m] = "new" /\ \E o \in Objs :
               /\ (o \in free \/ (obj[o].m = None /\ o \notin Used))
               /\ free' = free \ {o} /\ of' = [of EXCEPT ![m] = o]
               /\ obj' = [obj EXCEPT ![o] = [m |-> m, resp |-> IF ResetResp THEN 0 ELSE @.resp, ctx |-> {}]]
          /\ st' = [st EXCEPT ![m] = "chain"] /\ UNCHANGED <<own, cp, ops>>
Chain(m) == /\ st[m] = "chain"
            /\ \E set \in (IF Icept THEN {TRUE, FALSE} ELSE {FALSE}) :
                 IF set THEN obj' = [obj EXCEPT ![of[m]].resp = m] /\ own' = [own EXCEPT ![m].resp = m] ELSE UNCHANGED <<obj, own>>
            /\ \E s \in {"run", "lost"} : st' = [st EXCEPT ![m] = s]    \* lost: no route, stopped
            /\ UNCHANGED <<free, of, cp, ops>>
Set(m) == /\ st[m] = "run" /\ ops < MaxOps /\ ops' = ops + 1
          /\ obj' = [obj EXCEPT ![of[m]].ctx = @ \cup {m}] /\ own' = [own EXCEPT ![m].ctx = @ \cup {m}] /\ UNCHANGED <<free, of, st, cp>>
Copy(m) == /\ st[m] = "run" /\ ops < MaxOps /\ ops' = ops + 1
           /\ cp' = cp \cup {[o |-> of[m], snap |-> own[m], data |-> obj[of[m]]]} /\ UNCHANGED <<free, obj, of, st, own>>
End(m) == /\ st[m] = "run" /\ st' = [st EXCEPT ![m] = "done"]
          /\ free' \in {free \cup {of[m]}, free}           \* the second: a panic
          /\ UNCHANGED <<obj, of, own, cp, ops>>
Next == \E m \in Msgs : Get(m) \/ Chain(m) \/ Set(m) \/ Copy(m) \/ End(m)
Spec == Init /\ [][Next]_vars
SeesOwn == \A m \in Msgs : st[m] \in {"chain", "run"} => obj[of[m]] = own[m]
Seen(c) == IF CopyShares THEN [c.data EXCEPT !.ctx = obj[c.o].ctx] ELSE c.data
CopyKeeps == \A c \in cp : Seen(c) = c.snap
NotShared == \A m, k \in Msgs : m # k /\ st[m] \in {"chain", "run"} /\ st[k] \in {"chain", "run"} => of[m] # of[k]
=============================================================================
