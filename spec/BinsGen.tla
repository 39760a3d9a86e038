------------------------------ MODULE BinsGen ------------------------------
(* Every column of three values over four, one to four bins, every strategy and encoding; shuffles of every small size. *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
V == << "-1", "0", "3/4", "2" >>
ColsOf == {[i \in 1..3 |-> <<V[f[i]]>>] : f \in [1..3 -> 1..4]}
P == << <<"-5">>, <<"-1">>, <<"0">>, <<"3/4">>, <<"1">>, <<"2">>, <<"7">> >>
Cfgs == {[kind |-> "bins", nbins |-> n, strategy |-> st, encode |-> e] : n \in 1..4, st \in {"uniform", "quantile"}, e \in {"ordinal", "onehot-dense"}}
O(o, X) == [o |-> o, p |-> 1, X |-> X, Y |-> <<>>]
Shuf(n, cx, cy, seed) == [o |-> "shuffle", n |-> n, cx |-> cx, cy |-> cy, seed |-> seed, p |-> 1, X |-> <<>>, Y |-> <<>>]
Cases == {[op |-> "hist", in |-> [cfg |-> c, lay |-> "packed", ops |-> <<O("fit", X), O("transform", P), O("roundtrip", P)>>]] : c \in Cfgs, X \in ColsOf}
   \cup {[op |-> "hist", in |-> [cfg |-> [kind |-> "shuffler"], lay |-> "packed", ops |-> <<Shuf(n, 2, cy, sd)>>]] : n \in 1..6, cy \in 0..2, sd \in 1..4}
ASSUME ndJsonSerialize(IOEnv.VERIF_CASES, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
