----------------------------- MODULE KernelsGen -----------------------------
(* Every kernel term of depth two over these leaves, with a history of clones and evaluations. *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
L1(o, v, f) == [op |-> o, v |-> v, lo |-> IF f THEN "1" ELSE "1/1024", hi |-> IF f THEN "1" ELSE "1024"]
RB(ls, lo, hi) == [op |-> "rbf", ls |-> ls, lo |-> lo, hi |-> hi, nob |-> FALSE]
Leaves == {L1("const", "3/2", FALSE), L1("const", "2", TRUE), L1("white", "1/2", FALSE), L1("white", "3/4", TRUE), L1("dot", "5/4", FALSE),
           RB(<<"3/2">>, <<"1/64">>, <<"64">>), RB(<<"1", "2">>, <<"1/64", "1/64">>, <<"64", "64">>),
           RB(<<"1", "2">>, <<"1", "1/64">>, <<"1", "64">>), RB(<<"1", "2">>, <<"1/64", "2">>, <<"64", "2">>)}
Terms == Leaves \cup {[op |-> o, a |-> a, b |-> b] : o \in {"sum", "prod"}, a \in Leaves, b \in Leaves}
         \cup {[op |-> "pow", a |-> a, e |-> e] : a \in Leaves, e \in {"2", "3"}}
X == << <<"0", "1">>, <<"1/2", "-1">>, <<"0", "1">> >>
NF(k) == CASE k.op = "rbf" -> Len(SelectSeq([i \in 1..Len(k.ls) |-> k.lo[i] # k.hi[i]], LAMBDA b : b)) [] OTHER -> IF k.lo = k.hi THEN 0 ELSE 1
NT(k) == CASE k.op \in {"sum", "prod"} -> NF(k.a) + NF(k.b) [] k.op = "pow" -> NF(k.a) [] OTHER -> NF(k)
T == << "1/4", "-1/2", "3/8", "1/8" >>
Ev(i) == [name |-> "eval", i |-> i, lay |-> "packed", X |-> X, self |-> TRUE, twice |-> FALSE, grad |-> TRUE]
Ex(i) == [name |-> "eval", i |-> i, lay |-> "packed", X |-> X, Y |-> << <<"0", "1">>, <<"1", "1">> >>, self |-> FALSE, twice |-> FALSE, grad |-> FALSE]
Th(i) == [name |-> "theta", i |-> i]
Hist(k) == << Th(1), Ev(1), [name |-> "clone", i |-> 1, lay |-> "packed", plain |-> FALSE, theta |-> SubSeq(T, 1, NT(k))], Th(1), Ev(1), Th(2), Ev(2), Ex(2), Ex(1) >>
ASSUME ndJsonSerialize(IOEnv.VERIF_CASES, SetToSeq({[op |-> "hist", in |-> [kernels |-> <<k>>, ops |-> Hist(k)]] : k \in Terms}))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
