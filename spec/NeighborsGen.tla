---------------------------- MODULE NeighborsGen ----------------------------
(* Every training set of four points on the line {0,1,3} and of three points in {0,1,3}x{0,1}, in every order, queried
   at every grid point and between, with trees of one point per leaf and by brute force. *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
V == << "0", "1", "3" >>
U == << "0", "1" >>
Line == {[i \in 1..4 |-> << V[f[i]] >>] : f \in [1..4 -> 1..3]}
Plane == {[i \in 1..3 |-> << V[f[i]], U[g[i]] >>] : f \in [1..3 -> 1..3], g \in [1..3 -> 1..2]}
QLine == << <<"0">>, <<"1/2">>, <<"1">>, <<"2">>, <<"3">>, <<"5">> >>
QPlane == << <<"0","0">>, <<"1","1/2">>, <<"2","1">>, <<"3","0">>, <<"-1","2">> >>
Hist(T, Q, p, alg) == [op |-> "hist", in |-> [p |-> p, alg |-> alg, leaf |-> 1, lay |-> "packed", ops |->
   << [o |-> "fit", X |-> T], [o |-> "knn", Q |-> Q, k |-> 2], [o |-> "knn", Q |-> Q, k |-> Len(T)],
      [o |-> "radius", Q |-> Q, rad |-> "1", exact |-> TRUE], [o |-> "radius", Q |-> Q, rad |-> "0", exact |-> TRUE],
      [o |-> "tree", Q |-> Q, k |-> 2, eps |-> "0", bound |-> "3/2", leaf |-> 1] >>]]
Cases == {Hist(T, QLine, p, a) : T \in Line, p \in {"1", "2"}, a \in {"kd_tree", "brute"}}
   \cup {Hist(T, QPlane, p, a) : T \in Plane, p \in {"2", "inf"}, a \in {"kd_tree", "brute"}}
ASSUME ndJsonSerialize(IOEnv.VERIF_CASES, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
