---------------------------- MODULE CrossValGen ----------------------------
(* Splits whose parts are neither contiguous nor of equal size, every number of jobs and release order. *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
Orders(t) == {p \in [1..t -> 0..(t-1)] : \A j \in 1..t : p[j] <= t - j}
Splits3 == << [train |-> <<3, 0, 4>>, test |-> <<1, 2>>],
              [train |-> <<1, 2, 3, 4>>, test |-> <<0>>],
              [train |-> <<0>>, test |-> <<4, 2>>] >>
Splits4 == << [train |-> <<5, 4, 3>>, test |-> <<0, 1, 2>>],
              [train |-> <<0, 1, 2, 3, 4>>, test |-> <<5>>],
              [train |-> <<2, 0, 5>>, test |-> <<1, 4, 3>>],
              [train |-> <<1, 1, 4>>, test |-> <<3, 0>>] >>
Case(sp, rows, jobs, p) == [op |-> "crossval", in |-> [splits |-> sp, n |-> rows, jobs |-> jobs, prio |-> p, cols |-> 2, outs |-> 1 + (jobs % 2), gated |-> TRUE]]
Cases == {Case(Splits3, 5, j, p) : j \in 1..4, p \in Orders(3)}
         \cup {Case(Splits4, 6, j, p) : j \in 1..5, p \in Orders(4)}
ASSUME ndJsonSerialize(IOEnv.VERIF_CASES, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
