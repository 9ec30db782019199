-------------------------------- MODULE Chain --------------------------------
(* Interceptors around one message (C12).  Position 0 is the decoder (if there is one: from = 0, else from = 1), 1..N the
   added interceptors in the order they were added; N + 1 is the dispatch.
     pos    the next position to enter;  stk: the positions entered and not left, innermost last
     req    what is passed on: [tag, resp], the identity of the request and its response value
     ret    what the innermost interceptor returned ("none": nothing has returned since the last entry)
     disp   0: not dispatched, 1: handed to dispatch, 2: its handler has run *)
EXTENDS Integers, Sequences
VARIABLES pos, stk, req, ret, disp
chainVars == <<pos, stk, req, ret, disp>>
ChInit(from, r0) == pos = from /\ stk = <<>> /\ req = r0 /\ ret = "none" /\ disp = 0
Inner == stk[Len(stk)]
\* enter position p, seeing r: the outermost one is entered once, the others only when the one before has passed on
ChEnter(p, r, n) == /\ p = pos /\ p <= n /\ r = req
                    /\ (IF stk = <<>> THEN TRUE ELSE Inner.p = p - 1 /\ Inner.s = "passed")
                    /\ stk' = Append(stk, [p |-> p, s |-> "in"]) /\ pos' = p + 1 /\ ret' = "none" /\ UNCHANGED <<req, disp>>
\* the innermost one passes r on; behind the last one lies the dispatch, which hands the request back
ChPass(p, r, n) == /\ stk # <<>> /\ Inner.p = p /\ Inner.s = "in"
                   /\ stk' = [stk EXCEPT ![Len(stk)].s = "passed"] /\ req' = r
                   /\ disp' = (IF p = n THEN 1 ELSE disp) /\ UNCHANGED <<pos, ret>>
\* its call that passed the message on comes back with v: what the next one returned, or the request from the dispatch
ChBack(p, v, n) == /\ stk # <<>> /\ Inner.p = p /\ Inner.s = "passed"
                   /\ (IF p = n THEN v = req.tag ELSE v = ret) /\ (p < n => pos > p + 1)
                   /\ stk' = [stk EXCEPT ![Len(stk)].s = "back"] /\ UNCHANGED <<pos, req, ret, disp>>
ChReturn(p, v) == /\ stk # <<>> /\ Inner.p = p /\ Inner.s \in {"in", "back"}
                  /\ stk' = SubSeq(stk, 1, Len(stk) - 1) /\ ret' = v /\ UNCHANGED <<pos, req, disp>>
\* the handler runs, once, with what the last one passed on (concurrently with the way back)
ChHandle(r) == disp = 1 /\ r = req /\ disp' = 2 /\ UNCHANGED <<pos, stk, req, ret>>
\* nothing is left to happen
ChOver == stk = <<>> /\ ret # "none" /\ disp # 1
=============================================================================
