------------------------------- MODULE NBGen -------------------------------
(* Every division of four labelled points into up to three batches, declared classes with an unseen one, queries everywhere. *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
V == << "0", "1", "4" >>
Lb == << "7", "-1" >>
Q == << <<"0">>, <<"1">>, <<"2">>, <<"5">> >>
P(X, Y, a, b) == [o |-> "partial", m |-> 1, X |-> SubSeq(X, a, b), Y |-> SubSeq(Y, a, b), w |-> <<>>, classes |-> << "-1", "3", "7" >>, refit |-> FALSE]
Ask(o) == [o |-> o, m |-> 1, X |-> Q, Y |-> <<>>, w |-> <<>>, classes |-> <<>>, refit |-> FALSE]
Case(X, Y, i, j) == [op |-> "hist", in |-> [cfg |-> [priors |-> <<>>, smooth |-> "1/100"], lay |-> "packed", recv |-> "nil",
   ops |-> (IF i > 0 THEN << P(X, Y, 1, i) >> ELSE <<>>) \o (IF j > i THEN << P(X, Y, i+1, j) >> ELSE <<>>) \o << P(X, Y, j+1, 4), Ask("predict"), Ask("logproba") >>]]
Xs == { [i \in 1..4 |-> << V[f[i]] >>] : f \in [1..4 -> 1..3] }
Ys == { [i \in 1..4 |-> << Lb[f[i]] >>] : f \in [1..4 -> 1..2] }
Varied(X, a, b) == \E i \in a..b : X[i] # X[a]
Cases == {Case(X, Y, i, j) : X \in Xs, Y \in Ys, i \in {0, 2}, j \in {0, 2}}
Good == {c \in Cases : \A k \in 1..Len(c.in.ops) : c.in.ops[k].o = "partial" => Varied(c.in.ops[k].X, 1, Len(c.in.ops[k].X))}
ASSUME ndJsonSerialize(IOEnv.VERIF_CASES, SetToSeq({c \in Good : c.in.ops[1].X # <<>>}))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
