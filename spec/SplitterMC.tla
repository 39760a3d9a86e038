----------------------------- MODULE SplitterMC -----------------------------
(***************************************************************************)
(* The k-fold splitter as a machine: it emits one split after another, the *)
(* first n % k of them with one more test row. TLC checks that whatever    *)
(* rows it picks, the emitted sequence is a valid k-fold.                  *)
(***************************************************************************)
EXTENDS Splitter, TLC
CONSTANTS MaxN, MaxK
VARIABLES n, k, out
vars == <<n, k, out>>
Init == n \in 1..MaxN /\ k \in 1..MaxK /\ out = <<>>
NTest == n \div k + IF Len(out) < n % k THEN 1 ELSE 0
\* sets stand for the sequences: order within a part is free
AsSeq(S) == [j \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y < x}) = j - 1]
Emit == /\ Len(out) < k
        /\ \E S \in {T \in SUBSET (0..(n-1)) : Cardinality(T) = NTest} :
             out' = Append(out, [train |-> AsSeq((0..(n-1)) \ S), test |-> AsSeq(S)])
        /\ UNCHANGED <<n, k>>
Next == Emit
Inv == /\ \A j \in 1..Len(out) : ValidSplit(n, out[j])
       /\ Len(out) = k => ValidKFold(n, k, out)
=============================================================================
