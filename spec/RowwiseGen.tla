----------------------------- MODULE RowwiseGen -----------------------------
(* Every 2x2 matrix over four values through every option of the row-wise transforms; every missing pattern. *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
V4 == << "-2", "0", "1/2", "3" >>
VN == << "nan", "1", "4", "-2" >>
M22(V) == {<< <<V[f[1]], V[f[2]]>>, <<V[f[3]], V[f[4]]>> >> : f \in [1..4 -> 1..4]}
Norms == {[kind |-> "norm", norm |-> n, axis |-> a] : n \in {"l1", "l2", "max"}, a \in {0, 1}}
Bins == {[kind |-> "binarize", threshold |-> t] : t \in {"0", "1/2", "-2"}}
Polys == {[kind |-> "poly", degree |-> d, inter |-> i, bias |-> b] : d \in 1..3, i \in BOOLEAN, b \in BOOLEAN}
Imps == {[kind |-> "impute", strategy |-> st] : st \in {"", "mean", "median", "most_frequent"}}
O(o, X) == [o |-> o, p |-> 1, X |-> X, Y |-> <<>>]
Case(c, ops) == [op |-> "hist", in |-> [cfg |-> c, lay |-> "packed", ops |-> ops]]
Cases == {Case(c, <<O("fit", X), O("transform", X)>>) : c \in Norms \cup Bins \cup {[kind |-> "kcenter"]}, X \in M22(V4)}
   \cup {Case(c, <<O("fit", <<<<"1", "2">>>>), O("transform", X), O("roundtrip", X)>>) :
           c \in Polys, X \in {Y \in M22(V4) : Y[1][1] # Y[2][2]}}
   \cup {Case(c, <<O("fit", X \o << <<"1", "3">>, <<"4", "nan">>, <<"1", "5">> >>), O("transform", X)>>) : c \in Imps, X \in M22(VN)}
ASSUME ndJsonSerialize(IOEnv.VERIF_CASES, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
