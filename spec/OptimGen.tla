------------------------------ MODULE OptimGen ------------------------------
(* Every sequence of three gradients over a few values, for every optimizer, with and without momentum and clipping. *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
Kinds == {"sgd", "adagrad", "rmsprop", "adadelta", "adam"}
V == << "0", "-1", "3" >>
G(a) == << << V[a], V[1 + (a % 3)] >> >>
Cfg(k, mo, cl) == [kind |-> k, step |-> "1/2", momentum |-> mo, clip |-> cl, gamma |-> "9/10", eps |-> "1/1000", b1 |-> "9/10", b2 |-> "99/100", preset |-> FALSE]
Op(a, o) == [o |-> o, g |-> G(a)]
Case(k, mo, cl, a, b, c, o) == [op |-> "opt", in |-> [c |-> Cfg(k, mo, cl), theta |-> << << "1", "-2" >> >>, lay |-> "packed", ops |-> << Op(a, "update"), Op(b, o), Op(c, "update") >>]]
ASSUME ndJsonSerialize(IOEnv.VERIF_CASES, SetToSeq({Case(k, mo, cl, a, b, c, o) : k \in Kinds, mo \in {"0", "9/10"}, cl \in {"0", "2"}, a \in 1..3, b \in 1..3, c \in 1..3, o \in {"update", "get"}}))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
