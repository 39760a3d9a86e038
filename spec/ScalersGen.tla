----------------------------- MODULE ScalersGen -----------------------------
(* Every division of a few rows into batches, every scaler, followed by a transform and an inverse; *)
(* then a refit on other data, and the same again through a clone.                                   *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
Rws == << <<"3", "-8", "5">>, <<"1", "2", "5">>, <<"9", "4", "5">>, <<"-7", "16", "5">> >>
Probe == << <<"1", "2", "3">>, <<"-3", "8", "5">>, <<"100", "-1/2", "0">> >>
None == <<>>
Cfgs == { [kind |-> "minmax", lo |-> "0", hi |-> "1"], [kind |-> "minmax", lo |-> "-2", hi |-> "3"],
          [kind |-> "standard", mean |-> TRUE, std |-> TRUE], [kind |-> "standard", mean |-> FALSE, std |-> TRUE],
          [kind |-> "standard", mean |-> TRUE, std |-> FALSE], [kind |-> "maxabs"] }
\* orders of the four rows and the points where they are cut
Perms == {p \in [1..4 -> 1..4] : \A a, b \in 1..4 : a # b => p[a] # p[b]}
Cuts == SUBSET (1..3)
RECURSIVE Batches(_, _, _, _)
Batches(p, cuts, from, to) ==
  IF to > 4 THEN <<>>
  ELSE IF to = 4 \/ to \in cuts
       THEN << [j \in 1..(to - from + 1) |-> Rws[p[from + j - 1]]] >> \o Batches(p, cuts, to + 1, to + 1)
       ELSE Batches(p, cuts, from, to + 1)
O(o, p, X) == [o |-> o, p |-> p, X |-> X, Y |-> None]
Hist(p, cuts) ==
  LET b == Batches(p, cuts, 1, 1) IN
  << O("fit", 1, <<Probe[3], Probe[1]>>) , O("fit", 1, b[1]) >>
  \o [j \in 1..(Len(b) - 1) |-> O("pfit", 1, b[j + 1])]
  \o << O("transform", 1, Probe), [o |-> "clone", p |-> 1], O("pfit", 1, <<Probe[3]>>), O("transform", 2, Probe),
        O("inverse", 2, Probe), O("transform", 1, Probe), O("pfit", 2, <<Probe[2]>>), O("transform", 2, Rws), O("transform", 1, Rws) >>
Some == IF IOEnv.VERIF_TIER = "thorough" THEN Perms ELSE {p \in Perms : p[1] < p[3]}
Cases == {[op |-> "hist", in |-> [cfg |-> c, lay |-> "packed", ops |-> Hist(p, cuts)]] : c \in Cfgs, p \in Some, cuts \in Cuts}
ASSUME ndJsonSerialize(IOEnv.VERIF_CASES, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
