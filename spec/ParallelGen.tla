---------------------------- MODULE ParallelGen ----------------------------
(* All (n, threads, release order) with few workers, as cases for the real code. *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC
Orders(t) == {p \in [1..t -> 0..(t-1)] : \A k \in 1..t : p[k] <= t - k}
Cases == UNION { { [op |-> "parallelize",
                    in |-> [n |-> n, threads |-> t, gated |-> TRUE, prio |-> p]]
                   : p \in Orders(t), n \in 0..6 } : t \in 1..4 }
ASSUME ndJsonSerialize(IOEnv.VERIF_CASES, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
