-------------------------------- MODULE Send --------------------------------
(* The contract of sending on one connection (C09, C10).

   calls[n]  what is known of send call n: g (goroutine), p ("direct" or "buff"), late (it began after the end of the
             connection had been reported), r ("run": has not returned, "ok", "err")
   got       the messages that have arrived at the peer, in order
   cst       "open", "closing" (something has begun to end the connection), "ended" (its close callbacks have run) *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES calls, got, cst
sendVars == <<calls, got, cst>>

SdInit == calls = <<>> /\ got = <<>> /\ cst = "open"
Got == {got[j] : j \in 1..Len(got)}

\* calls are numbered in the order they begin
SdCall(n, g, p) == /\ n = Len(calls) + 1
                   /\ calls' = Append(calls, [g |-> g, p |-> p, late |-> cst = "ended", r |-> "run"])
                   /\ UNCHANGED <<got, cst>>
\* a call that began after the end must fail; a buffered message that has arrived cannot have failed
CanRet(n, r) == /\ n \in DOMAIN calls /\ calls[n].r = "run"
                /\ calls[n].late => r = "err"
                /\ r = "err" /\ calls[n].p = "buff" => n \notin Got
SdRet(n, r) == CanRet(n, r) /\ calls' = [calls EXCEPT ![n].r = r] /\ UNCHANGED <<got, cst>>
\* whole, once, never after a failed buffered call, never behind a later message of the same goroutine and path
CanRecv(n) == /\ n \in DOMAIN calls /\ n \notin Got /\ ~calls[n].late
              /\ ~(calls[n].p = "buff" /\ calls[n].r = "err")
              /\ \A m \in Got : calls[m].g = calls[n].g /\ calls[m].p = calls[n].p => m < n
SdRecv(n) == CanRecv(n) /\ got' = Append(got, n) /\ UNCHANGED <<calls, cst>>
SdClosing == cst' = (IF cst = "open" THEN "closing" ELSE cst) /\ UNCHANGED <<calls, got>>
CanEnd == cst = "closing"
SdEnded == CanEnd /\ cst' = "ended" /\ UNCHANGED <<calls, got>>

\* what must be true once everything has had time to happen
Returned == \A n \in DOMAIN calls : calls[n].r # "run"
Delivered == \A n \in DOMAIN calls : calls[n].r = "ok" => n \in Got
=============================================================================
