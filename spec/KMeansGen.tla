------------------------------ MODULE KMeansGen ------------------------------
(* Every sequence of four points of the line {0,1,3,6}, one to three clusters. *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
V == << "0", "1", "3", "6" >>
Cases == {[op |-> "kmeans", in |-> [X |-> [i \in 1..4 |-> << V[f[i]] >>], Q |-> << <<"-1">>, <<"2">>, <<"9/2">> >>, k |-> k, lay |-> "packed", jobs |-> 2]]
          : f \in [1..4 -> 1..4], k \in 1..3}
ASSUME ndJsonSerialize(IOEnv.VERIF_CASES, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
