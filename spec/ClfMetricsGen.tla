--------------------------- MODULE ClfMetricsGen ---------------------------
(* Every pair of label vectors of up to three samples over three values (negative and fractional labels, classes
   that are never predicted or never true), with and without weights. *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
Vals == << "-3", "1/2", "7" >>
Ws == << "1/2", "3", "5/4" >>
ColOf(f, n, o) == [i \in 1..n |-> << Vals[f[o + i]] >>]
Cases == UNION {{[op |-> "clf", in |-> [Y |-> ColOf(f, n, 0), P |-> ColOf(f, n, n), w |-> IF k = 0 THEN <<>> ELSE SubSeq(Ws, 1, n), beta |-> IF k = 0 THEN "1" ELSE "2", lay |-> "packed"]]
          : f \in [1..(2 * n) -> 1..3], k \in 0..1} : n \in 1..3}
ASSUME ndJsonSerialize(IOEnv.VERIF_CASES, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
