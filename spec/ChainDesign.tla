----------------------------- MODULE ChainDesign -----------------------------
(* The implementation's chain: each Proceed makes a chain object with the position advanced by one and calls the
   interceptor there; the tail puts the request on a queue and proceeds past the end, which returns the request. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS N, From
VARIABLES cs, q, pos, stk, req, ret, disp
Ch == INSTANCE Chain
vars == <<cs, q, pos, stk, req, ret, disp>>
\* cs: call stack of [p, r, st, v]
Init == cs = <<[p |-> From, r |-> [tag |-> "q0", resp |-> 0], st |-> "call", v |-> "none"]>> /\ q = <<>> /\ Ch!ChInit(From, [tag |-> "q0", resp |-> 0])
Top == cs[Len(cs)]
Set(f) == [cs EXCEPT ![Len(cs)] = f]
Reqs(r) == {r, [r EXCEPT !.resp = 1], [tag |-> "q1", resp |-> 0]}
Enter == /\ cs # <<>> /\ Top.st = "call" /\ Top.p <= N /\ cs' = Set([Top EXCEPT !.st = "in"]) /\ Ch!ChEnter(Top.p, Top.r, N) /\ UNCHANGED q
Pass == /\ cs # <<>> /\ Top.st = "in" /\ \E r \in Reqs(Top.r) :
             /\ cs' = Append(Set([Top EXCEPT !.st = "wait"]), [p |-> Top.p + 1, r |-> r, st |-> "call", v |-> "none"])
             /\ Ch!ChPass(Top.p, r, N) /\ UNCHANGED q
Stop == cs # <<>> /\ Top.st = "in" /\ cs' = Set([Top EXCEPT !.st = "ret", !.v = "own"]) /\ UNCHANGED <<q, pos, stk, req, ret, disp>>
Tail0 == /\ cs # <<>> /\ Top.st = "call" /\ Top.p = N + 1 /\ q' = Append(q, Top.r)
         /\ cs' = [SubSeq(cs, 1, Len(cs) - 1) EXCEPT ![Len(cs) - 1].v = Top.r.tag, ![Len(cs) - 1].st = "back"] /\ UNCHANGED <<pos, stk, req, ret, disp>>
Back == cs # <<>> /\ Top.st = "back" /\ Ch!ChBack(Top.p, Top.v, N) /\ \E v \in {Top.v, "own"} : cs' = Set([Top EXCEPT !.st = "ret", !.v = v]) /\ UNCHANGED q
Return == /\ cs # <<>> /\ Top.st = "ret" /\ Ch!ChReturn(Top.p, Top.v) /\ UNCHANGED q
          /\ cs' = IF Len(cs) = 1 THEN <<>> ELSE [SubSeq(cs, 1, Len(cs) - 1) EXCEPT ![Len(cs) - 1].v = Top.v, ![Len(cs) - 1].st = "back"]
Handle == q # <<>> /\ q' = Tail(q) /\ Ch!ChHandle(Head(q)) /\ UNCHANGED cs
Next == Enter \/ Pass \/ Stop \/ Tail0 \/ Back \/ Return \/ Handle
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == cs = <<>> /\ q = <<>>
Over == <>Done
DoneIsOver == Done => Ch!ChOver
Allows == /\ q # <<>> => disp = 1 /\ req = Head(q)
          /\ cs # <<>> /\ Top.st = "back" => ENABLED Ch!ChBack(Top.p, Top.v, N)
          /\ cs # <<>> /\ Top.st = "call" /\ Top.p <= N => ENABLED Ch!ChEnter(Top.p, Top.r, N)
=============================================================================
