----------------------------- MODULE RankingGen -----------------------------
(* Every labelling of up to four samples with both classes, under every score vector over three values. *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
Sc == << "-1", "1/4", "2" >>
Lb == << "1", "2" >>
Cases == UNION {{[op |-> "curve", in |-> [Y |-> [i \in 1..n |-> << Lb[y[i]] >>], S |-> [i \in 1..n |-> << Sc[s[i]] >>], pos |-> "2", w |-> <<>>, lay |-> "packed"]]
          : y \in {f \in [1..n -> 1..2] : \E i, j \in 1..n : f[i] # f[j]}, s \in [1..n -> 1..3]} : n \in 2..4}
ASSUME ndJsonSerialize(IOEnv.VERIF_CASES, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
