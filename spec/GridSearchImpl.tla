--------------------------- MODULE GridSearchImpl ---------------------------
(***************************************************************************)
(* Grid search as designed: candidates evaluated by concurrent workers     *)
(* into a table by candidate number, then one pass picks the best. TLC     *)
(* checks, for every score assignment and every completion order, that the *)
(* pick is a best candidate.                                               *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS N, MaxScore, Workers
VARIABLES truth, table, next, running, red, best
vars == <<truth, table, next, running, red, best>>
Init == /\ truth \in [1..N -> 0..MaxScore] /\ table = [j \in 1..N |-> -1]
        /\ next = 1 /\ running = {} /\ red = 1 /\ best = 0
Start == next <= N /\ Cardinality(running) < Workers /\ running' = running \cup {next} /\ next' = next + 1
         /\ UNCHANGED <<truth, table, red, best>>
Done(j) == j \in running /\ running' = running \ {j} /\ table' = [table EXCEPT ![j] = truth[j]]
           /\ UNCHANGED <<truth, next, red, best>>
Reduce == /\ next > N /\ running = {} /\ red <= N
          /\ best' = (IF best = 0 \/ table[red] > table[best] THEN red ELSE best)
          /\ red' = red + 1 /\ UNCHANGED <<truth, table, next, running>>
Next == Start \/ Reduce \/ \E j \in 1..N : Done(j)
Inv == red > N => \A j \in 1..N : table[j] = truth[j] /\ truth[j] <= truth[best]
=============================================================================
