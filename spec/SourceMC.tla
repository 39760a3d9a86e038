------------------------------ MODULE SourceMC ------------------------------
(***************************************************************************)
(* The lock-protected source as an interleaving machine: a draw takes the  *)
(* lock, reads the position, advances it and releases the lock; a clone    *)
(* copies the position under the lock. With UseLock = FALSE (a negative    *)
(* control, not run by the checks) the invariant fails.                    *)
(***************************************************************************)
EXTENDS Source
CONSTANTS Workers, N, UseLock
VARIABLES pos, lock, pc, tmp, got, clone
vars == <<pos, lock, pc, tmp, got, clone>>
Init == /\ pos = 0 /\ lock = 0 /\ pc = [w \in Workers |-> "idle"] /\ tmp = [w \in Workers |-> 0]
        /\ got = [w \in Workers |-> <<>>] /\ clone = -1
Take(w) == /\ pc[w] = "idle" /\ Len(got[w]) < N /\ (UseLock => lock = 0)
           /\ lock' = w /\ pc' = [pc EXCEPT ![w] = "read"] /\ UNCHANGED <<pos, tmp, got, clone>>
Read(w) == /\ pc[w] = "read" /\ tmp' = [tmp EXCEPT ![w] = pos]
           /\ pc' = [pc EXCEPT ![w] = "write"] /\ UNCHANGED <<pos, lock, got, clone>>
Write(w) == /\ pc[w] = "write" /\ pos' = tmp[w] + 1 /\ got' = [got EXCEPT ![w] = Append(@, tmp[w] + 1)]
            /\ pc' = [pc EXCEPT ![w] = "idle"] /\ lock' = 0 /\ UNCHANGED <<tmp, clone>>
Clone == clone = -1 /\ (UseLock => lock = 0) /\ clone' = pos /\ UNCHANGED <<pos, lock, pc, tmp, got>>
Next == Clone \/ \E w \in Workers : Take(w) \/ Read(w) \/ Write(w)
Spec == Init /\ [][Next]_vars
Drawn == UNION {{got[w][j] : j \in 1..Len(got[w])} : w \in Workers}
\* every value handed out once, none skipped, each worker in order, and a clone continues from a real point
Total == LET RECURSIVE T(_) T(S) == IF S = {} THEN 0 ELSE LET w == CHOOSE w \in S : TRUE IN Len(got[w]) + T(S \ {w}) IN T(Workers)
OnceEach == Drawn = 1..Total /\ pos = Total
InOrder == \A w \in Workers : \A j \in 1..(Len(got[w]) - 1) : got[w][j] < got[w][j+1]
CloneIsPoint == clone \in (-1)..pos
=============================================================================
