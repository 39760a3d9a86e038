---------------------------- MODULE SplitterGen ----------------------------
(* Every small (rows, folds, shuffle): divisibility and more folds than rows included. *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
Cases == {[op |-> "kfold", in |-> [n |-> n, k |-> k, shuffle |-> s, seed |-> (n * 7 + k), src |-> src]]
          : n \in 1..9, k \in 0..6, s \in BOOLEAN, src \in {"locked", "plain"}}
ASSUME ndJsonSerialize(IOEnv.VERIF_CASES, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
