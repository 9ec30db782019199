------------------------------- MODULE Serve -------------------------------
(* The contract of message dispatch as an application can observe it (C03, C04, C05).

   sent[c]  kinds of the messages the peer of connection c has sent, in order.  "ok": handled; "unk": its id has no
            handler; "icp": an interceptor panics on it (the connection may be closed because of that).  An "ok" message
            may well panic in its handler: that makes no difference to the contract.
   begun[c] the messages whose handler has started;  act[c]: those whose handler is running
   last[c]  the highest message started;   wk[c]: the worker serving c (0: not known yet)
   busy     workers running a handler;     seen: all workers seen so far
   st[c]    "new" (start hook not finished; "newclosing": and its end has begun), "open", "closing" (its end has begun), "closed" (stop hook has run)
   pool = FALSE: no worker pool, only exactly-once remains.  bound: every open connection has its own worker.
   maxw: number of workers; fixed: the set of workers never changes. *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES sent, begun, act, last, wk, busy, seen, st
serveVars == <<sent, begun, act, last, wk, busy, seen, st>>

SvInit(conns) ==
  /\ sent = [c \in conns |-> <<>>] /\ begun = [c \in conns |-> {}] /\ act = [c \in conns |-> {}]
  /\ last = [c \in conns |-> 0] /\ wk = [c \in conns |-> 0] /\ busy = {} /\ seen = {}
  /\ st = [c \in conns |-> "new"]

Runs(kind) == kind # "unk"
\* nothing runnable lies strictly between a and b
NextAfter(c, a, b) == a < b /\ \A j \in (a + 1)..(b - 1) : sent[c][j] \in {"unk", "icp"}

SvStart(c) == st[c] \in {"new", "newclosing"} /\ st' = [st EXCEPT ![c] = IF @ = "new" THEN "open" ELSE "closing"] /\ UNCHANGED <<sent, begun, act, last, wk, busy, seen>>
SvSend(c, kind) == sent' = [sent EXCEPT ![c] = Append(@, kind)] /\ UNCHANGED <<begun, act, last, wk, busy, seen, st>>
SvBegin(c, k, w, pool, bound, maxw, fixed) ==
  /\ k \in 1..Len(sent[c]) /\ Runs(sent[c][k]) /\ k \notin begun[c]
  /\ st[c] \notin {"new", "newclosing"}
  /\ IF pool
     THEN /\ act[c] = {} /\ NextAfter(c, last[c], k)
          /\ wk[c] \in {0, w} /\ w \notin busy
          /\ Cardinality(busy) < maxw
          /\ fixed => Cardinality(seen \cup {w}) <= maxw
          /\ bound /\ st[c] = "open" => \A d \in DOMAIN wk \ {c} : st[d] = "open" => wk[d] # w
          /\ wk' = [wk EXCEPT ![c] = w] /\ busy' = busy \cup {w} /\ seen' = seen \cup {w}
     ELSE UNCHANGED <<wk, busy, seen>>
  /\ begun' = [begun EXCEPT ![c] = @ \cup {k}] /\ act' = [act EXCEPT ![c] = @ \cup {k}]
  /\ last' = [last EXCEPT ![c] = k]
  /\ UNCHANGED <<sent, st>>
SvEnd(c, k, w, pool) ==
  /\ k \in act[c] /\ (pool => w \in busy)
  /\ act' = [act EXCEPT ![c] = @ \ {k}] /\ busy' = (IF pool THEN busy \ {w} ELSE busy)
  /\ UNCHANGED <<sent, begun, last, wk, seen, st>>
SvClosing(c) == st[c] \in {"new", "open"} /\ st' = [st EXCEPT ![c] = IF @ = "new" THEN "newclosing" ELSE "closing"] /\ UNCHANGED <<sent, begun, act, last, wk, busy, seen>>
\* the stop hook; an end nobody asked for is only allowed after an interceptor panic
SvStop(c) == /\ st[c] = "closing" \/ (st[c] = "open" /\ \E k \in 1..Len(sent[c]) : sent[c][k] = "icp")
             /\ st' = [st EXCEPT ![c] = "closed"] /\ UNCHANGED <<sent, begun, act, last, wk, busy, seen>>

\* everything sent on c has been handled completely (or c is gone because of an interceptor panic)
Complete(c) == /\ act[c] = {} /\ st[c] \notin {"new", "newclosing"}
               /\ \/ \A k \in 1..Len(sent[c]) : sent[c][k] = "ok" => k \in begun[c]
                  \/ st[c] = "closed" /\ \E k \in 1..Len(sent[c]) : sent[c][k] = "icp" /\ \A j \in 1..(k - 1) : sent[c][j] = "ok" => j \in begun[c]
=============================================================================
