--------------------------------- MODULE Req ---------------------------------
(* What one message's handlers see of its request (C13): conn, id, payload, response value and context entries are those of
   the message, as changed by its own handlers only; a copy keeps what the request had when it was copied, as changed only
   through the copy. *)
EXTENDS Integers, Sequences
VARIABLES id, pay, resp, ctx, copies
reqVars == <<id, pay, resp, ctx, copies>>
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
RqInit(i0, p0, r0) == id = i0 /\ pay = p0 /\ resp = r0 /\ ctx = [x \in {} |-> ""] /\ copies = <<>>
RqObs(i, p, r, c) == i = id /\ p = pay /\ r = resp /\ c = ctx /\ UNCHANGED reqVars
RqSet(k, v) == ctx' = Put(ctx, k, v) /\ UNCHANGED <<id, pay, resp, copies>>
RqResp(v) == resp' = v /\ UNCHANGED <<id, pay, ctx, copies>>
RqId(v) == id' = v /\ UNCHANGED <<pay, resp, ctx, copies>>
RqPay(v) == pay' = v /\ UNCHANGED <<id, resp, ctx, copies>>
RqCopy == copies' = Append(copies, [id |-> id, pay |-> pay, resp |-> resp, ctx |-> ctx]) /\ UNCHANGED <<id, pay, resp, ctx>>
RqCopyObs(j, i, p, r, c) == copies[j] = [id |-> i, pay |-> p, resp |-> r, ctx |-> c] /\ UNCHANGED reqVars
RqCopyCopy(j) == copies' = Append(copies, copies[j]) /\ UNCHANGED <<id, pay, resp, ctx>>
RqCopySet(j, k, v) == copies' = [copies EXCEPT ![j].ctx = Put(@, k, v)] /\ UNCHANGED <<id, pay, resp, ctx>>
=============================================================================
