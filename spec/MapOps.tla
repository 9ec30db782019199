------------------------------- MODULE MapOps -------------------------------
(* The contract of a concurrent map, per key (C16, C23).  A call is a set of atoms, one per key it touches; an atom acts on
   the current value v of its key (0: absent) with an argument a, its recorded result is r, and it takes effect at one instant
   between the beginning and the end of its call.  Calls on one key are then linearizable; a call over the whole map sees or
   changes every key once, each at some instant of the call. *)
EXTENDS Integers
\* is r a possible result on v?
Allowed(kind, v, a, r) ==
  CASE kind \in {"get", "pop"}  -> r = v
    [] kind \in {"has", "list"} -> r = (IF v = 0 THEN 0 ELSE 1)
    [] kind = "setnx"           -> r = (IF v = 0 THEN 1 ELSE 0)
    [] kind = "rmcb"            -> r = v           \* the value its callback was given; a = 1: the callback said remove
    [] kind \in {"set", "rm"}   -> TRUE
    [] OTHER                    -> FALSE
After(kind, v, a) ==
  CASE kind = "set"            -> a
    [] kind = "setnx"          -> (IF v = 0 THEN a ELSE v)
    [] kind \in {"rm", "pop"}  -> 0
    [] kind = "rmcb"           -> (IF a = 1 THEN 0 ELSE v)
    [] OTHER                   -> v
=============================================================================
