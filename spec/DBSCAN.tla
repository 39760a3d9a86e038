------------------------------- MODULE DBSCAN -------------------------------
(***************************************************************************)
(* Density-based clustering of nodes 1..n, given as neighbourhoods N       *)
(* (N[i] is a set containing i, symmetric) and the set of core nodes.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Grow(_, _, _)
Grow(N, core, S) == LET T == S \cup UNION {N[i] \cap core : i \in S} IN IF T = S THEN S ELSE Grow(N, core, T)
\* the density-connected component of core node i, among core nodes
Component(N, core, i) == Grow(N, core, {i})
ValidLabels(n, N, core, lab) ==
  /\ Len(lab) = n
  /\ \A i \in core : lab[i] >= 0 /\ {j \in core : lab[j] = lab[i]} = Component(N, core, i)
  /\ \A i \in (1..n) \ core : IF N[i] \cap core = {} THEN lab[i] = -1 ELSE \E j \in N[i] \cap core : lab[i] = lab[j]
  /\ \E m \in 0..n : {lab[i] : i \in 1..n} \ {-1} = 0..(m - 1)
=============================================================================
