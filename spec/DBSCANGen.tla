------------------------------ MODULE DBSCANGen ------------------------------
(* Every sequence of five points on {0,1,2,4,5}, eps 1, minimum 1 to 3; and weighted ones. *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
V == << "0", "1", "2", "4", "5" >>
Case(f, m, alg, w) == [op |-> "hist", in |-> [cfg |-> [p |-> "2", eps |-> "1", min |-> m, alg |-> alg, metric |-> "euclidean", leaf |-> 1, jobs |-> 2], lay |-> "packed",
   ops |-> << [o |-> "fit", X |-> [i \in 1..Len(f) |-> << V[f[i]] >>], w |-> w] >>]]
Cases == {Case(f, m, "kd_tree", <<>>) : f \in [1..4 -> 1..5], m \in {"2", "3"}}
   \cup {Case(f, m, "brute", <<"1/2", "2", "1">>) : f \in [1..3 -> 1..5], m \in {"3/2", "2", "3"}}
ASSUME ndJsonSerialize(IOEnv.VERIF_CASES, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
