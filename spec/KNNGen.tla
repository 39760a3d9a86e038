------------------------------ MODULE KNNGen ------------------------------
(* Every labelling of three points on {0,1,3} with two classes, one to three neighbours, both weightings; queries on, between and outside. *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
V == << "0", "1", "3" >>
Lb == << "5", "-2" >>
Q == << <<"0">>, <<"1/2">>, <<"1">>, <<"2">>, <<"4">> >>
Hist(kind, X, Y, k, w) == [op |-> "hist", in |-> [cfg |-> [kind |-> kind, p |-> "2", k |-> k, w |-> w, alg |-> "auto", leaf |-> 1, metric |-> ""], lay |-> "packed", ops |->
   << [o |-> "fit", X |-> X, Y |-> Y], [o |-> "predict", X |-> Q, Y |-> <<>>] >> \o (IF kind = "knc" THEN << [o |-> "proba", X |-> Q, Y |-> <<>>] >> ELSE <<>>)]]
Sets == {<< [i \in 1..3 |-> << V[f[i]] >>], [i \in 1..3 |-> << Lb[g[i]] >>] >> : f \in [1..3 -> 1..3], g \in [1..3 -> 1..2]}
Cases == {Hist(kd, s[1], s[2], k, w) : kd \in {"knc", "knr"}, s \in Sets, k \in 1..3, w \in {"uniform", "distance"}}
   \cup {Hist("centroid", s[1], s[2], 1, "") : s \in Sets}
ASSUME ndJsonSerialize(IOEnv.VERIF_CASES, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
