----------------------------- MODULE LabelsGen -----------------------------
(* Every column of up to four labels over three values, with every encoder; and every pair of two-row columns. *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
Vals == << "-3", "1/2", "7" >>
Cfgs == {[kind |-> "encoder"], [kind |-> "binarizer", neg |-> "0", pos |-> "1"], [kind |-> "binarizer", neg |-> "-1", pos |-> "1"],
         [kind |-> "onehot"], [kind |-> "multi"]}
OneCol == UNION {{[i \in 1..n |-> <<Vals[f[i]]>>] : f \in [1..n -> 1..3]} : n \in 1..4}
TwoCols == {[i \in 1..2 |-> <<Vals[f[i]], Vals[f[i + 2]]>>] : f \in [1..4 -> 1..3]}
O(c, o, p, M) == IF c.kind = "onehot" THEN [o |-> o, p |-> p, X |-> M, Y |-> <<>>] ELSE [o |-> o, p |-> p, X |-> <<>>, Y |-> M]
Rev(M) == [i \in 1..Len(M) |-> M[Len(M) + 1 - i]]
Hist(c, M) == << O(c, "fit", 1, M), [o |-> "attrs", p |-> 1, X |-> <<>>, Y |-> <<>>], O(c, "transform", 1, Rev(M)), O(c, "roundtrip", 1, M) >>
Cases == {[op |-> "hist", in |-> [cfg |-> c, lay |-> "packed", ops |-> Hist(c, M)]] : c \in Cfgs, M \in OneCol \cup TwoCols}
ASSUME ndJsonSerialize(IOEnv.VERIF_CASES, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
