----------------------------- MODULE RouterDesign -----------------------------
(* The algorithm of the implementation - an index advanced by loops that nest through explicit next calls (slices), a step
   counter with a "do not advance" flag (classic) - with handlers that do anything, against the contract Router.
   lp: the stack of running loops; each loop runs handler idx and then increments idx. *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Mode, N, MaxActs
VARIABLES idx, lp, acts, step, need, run, tbl, common, grp, rt, nx, stk, pend
R == INSTANCE Router
vars == <<idx, lp, acts, step, need, run, tbl, common, grp, rt, nx, stk, pend>>
Hs == [k \in 1..N |-> k]
Init == /\ idx = 0 /\ lp = <<"loop">> /\ acts = 0 /\ step = 0 /\ need = TRUE /\ run = FALSE
        /\ tbl = [x \in {1} |-> Hs] /\ common = <<>> /\ grp = <<>> /\ rt = Hs /\ nx = 1 /\ stk = <<>> /\ pend = -1
\* slices: lp is a stack of "loop" (about to look at idx+1) and handler numbers (running)
H == lp[Len(lp)]
IsLoop == lp # <<>> /\ H = "loop"
IsH == lp # <<>> /\ H # "loop"
Num(k) == CASE k = 1 -> "h1" [] k = 2 -> "h2" [] k = 3 -> "h3" [] k = 4 -> "h4" [] OTHER -> "h5"
Of(s) == CHOOSE k \in 1..5 : Num(k) = s
Pop == SubSeq(lp, 1, Len(lp) - 1)
Start == IsLoop /\ idx + 1 <= N /\ idx' = idx + 1 /\ lp' = Append(lp, Num(idx + 1)) /\ R!RtBegin(idx + 1) /\ UNCHANGED <<acts, step, need, run>>
LoopEnd == /\ IsLoop /\ idx + 1 > N /\ idx' = idx + 1 /\ lp' = Pop
           /\ IF Len(lp) = 1 THEN UNCHANGED <<tbl, common, grp, rt, nx, stk, pend>> ELSE R!RtNextRet(Of(lp[Len(lp) - 1]))
           /\ UNCHANGED <<acts, step, need, run>>
Next1 == IsH /\ acts < MaxActs /\ acts' = acts + 1 /\ lp' = Append(lp, "loop") /\ R!RtNext(Of(H)) /\ UNCHANGED <<idx, step, need, run>>
Abort == IsH /\ acts < MaxActs /\ acts' = acts + 1 /\ idx' = N /\ R!RtAbort(Of(H)) /\ UNCHANGED <<lp, step, need, run>>
Ret == IsH /\ lp' = Pop /\ R!RtEnd(Of(H)) /\ UNCHANGED <<idx, acts, step, need, run>>
Slices == Start \/ LoopEnd \/ Next1 \/ Abort \/ Ret
\* idx counts handlers started (0-based index + 1); after a handler the loop increments: Start uses idx + 1
\* classic
CStart == ~run /\ step < 3 /\ run' = TRUE /\ R!RcBegin(1, step) /\ UNCHANGED <<idx, lp, acts, step, need>>
CGoto(x) == run /\ acts < MaxActs /\ acts' = acts + 1 /\ step' = x /\ need' = FALSE /\ R!RcAsk(stk[1].h, x) /\ UNCHANGED <<idx, lp, run>>
CAbort == run /\ acts < MaxActs /\ acts' = acts + 1 /\ step' = 3 /\ R!RcAsk(stk[1].h, 3) /\ UNCHANGED <<idx, lp, need, run>>
CRet == /\ run /\ run' = FALSE /\ (IF need THEN step' = step + 1 /\ need' = need ELSE need' = TRUE /\ step' = step)
        /\ R!RcEnd(stk[1].h) /\ UNCHANGED <<idx, lp, acts>>
Classic == CStart \/ CAbort \/ CRet \/ \E x \in 0..2 : CGoto(x)
Next == IF Mode = "slices" THEN Slices ELSE Classic
Spec == Init /\ [][Next]_vars
Live == Spec /\ WF_vars(Next)
\* the contract never forbids what the algorithm is about to do, and when the algorithm is over so is the contract
Allows == IF Mode = "slices"
          THEN /\ IsLoop /\ idx + 1 <= N => R!MayStart /\ rt[nx] = idx + 1
               /\ IsLoop /\ idx + 1 > N => nx > N
               /\ lp = <<>> => R!RtOver
          ELSE /\ ~run /\ step < 3 => stk = <<>> /\ nx - 1 = step
               /\ ~run /\ step >= 3 => R!RcOver
Ends == <>(IF Mode = "slices" THEN lp = <<>> ELSE ~run /\ step >= 3)
=============================================================================
