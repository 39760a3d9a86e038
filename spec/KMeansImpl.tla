----------------------------- MODULE KMeansImpl -----------------------------
(***************************************************************************)
(* The iteration of cluster/kmeans.go (first points as centroids, first    *)
(* nearest centroid, means, stop after two rounds without change; the      *)
(* centroid of an empty cluster becomes the origin) on every sequence of   *)
(* four points of the line {0,1,3,6} and two or three clusters: it ends,   *)
(* at a stationary assignment.                                             *)
(***************************************************************************)
EXTENDS KMeans, TLC
V == << "0", "1", "3", "6" >>
VARIABLES X, C, L, same
vars == << X, C, L, same >>
Init == /\ \E f \in [1..4 -> 1..4] : X = [i \in 1..4 |-> << V[f[i]] >>]
        /\ \E k \in 2..3 : C = SubSeq(X, 1, k)
        /\ L = [i \in 1..4 |-> 1] /\ same = 0
First(x) == CHOOSE c \in 1..Len(C) : Closest(C, x, c) /\ \A e \in 1..(c - 1) : ~Closest(C, x, e)
Next == /\ same < 2 /\ X' = X
        /\ LET L2 == [i \in 1..4 |-> First(X[i])]
           IN /\ L' = L2 /\ same' = IF L2 = L THEN same + 1 ELSE 0
              /\ C' = [c \in 1..Len(C) |-> IF Members(L2, c) = {} THEN << R0 >> ELSE MeanOf(X, Members(L2, c))]
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Ends == <>(same = 2)
AtEnd == same = 2 => Stationary(X, C, L) /\ \A i \in 1..4 : L[i] = First(X[i])
=============================================================================
