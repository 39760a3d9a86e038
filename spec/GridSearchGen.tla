--------------------------- MODULE GridSearchGen ---------------------------
(* A 2x2 and a 1x3 grid with every assignment of small scores: every winner and every tie. *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
Sc(n) == ToString(n)
Case(names, values, combos, v, lower, jobs) ==
  [op |-> "grid", in |-> [names |-> names, values |-> values, lower |-> lower, jobs |-> jobs, nf |-> 2, n |-> 4,
     splits |-> << [train |-> <<0, 3>>, test |-> <<1, 2>>], [train |-> <<1, 2, 3>>, test |-> <<0>>] >>,
     prio |-> <<v[1], v[2], 1, 0>>, gated |-> (v[1] = 0),
     table |-> [j \in 1..Len(combos) |-> [c |-> combos[j], s |-> <<Sc(v[j]), Sc(v[j] + (IF j % 2 = 0 THEN 2 ELSE 0))>>]]]]
C4 == << <<"1", "x">>, <<"1", "y">>, <<"2", "x">>, <<"2", "y">> >>
C3 == << <<"5">>, <<"6">>, <<"7">> >>
Cases == {Case(<<"A", "C">>, <<<<"1", "2">>, <<"x", "y">>>>, C4, v, lo, (v[1] + v[2] * 2) % 4) : v \in [1..4 -> 0..2], lo \in BOOLEAN}
         \cup {Case(<<"A">>, <<<<"5", "6", "7">>>>, C3, v, lo, j) : v \in [1..3 -> 0..2], lo \in BOOLEAN, j \in {1, 3}}
ASSUME ndJsonSerialize(IOEnv.VERIF_CASES, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
