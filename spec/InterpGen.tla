------------------------------ MODULE InterpGen ------------------------------
(* Every order of three points, values from a small set, queries at, between and beyond the points. *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
X == << "0", "1", "3" >>
Perms == {f \in [1..3 -> 1..3] : \A i, j \in 1..3 : i # j => f[i] # f[j]}
V == << "0", "2", "-5" >>
Qs == << "-1", "0", "1/2", "1", "2", "3", "4" >>
Case(o, f, a) == [op |-> o, in |-> [x |-> [i \in 1..3 |-> X[f[i]]], y |-> [i \in 1..3 |-> V[a[i]]], q |-> Qs]]
\* a 2x2 grid in any order
GX == << "0", "0", "2", "2" >>
GY == << "1", "4", "1", "4" >>
P4 == {f \in [1..4 -> 1..4] : \A i, j \in 1..4 : i # j => f[i] # f[j]}
Case2(f, a) == [op |-> "bilinear", in |-> [x |-> [i \in 1..4 |-> GX[f[i]]], y |-> [i \in 1..4 |-> GY[f[i]]], z |-> [i \in 1..4 |-> V[a[i]]],
   q |-> << "0", "2", "0", "2", "1", "1/2", "1", "-1", "3" >>, q2 |-> << "1", "1", "4", "4", "2", "4", "1", "5", "0" >>]]
ASSUME ndJsonSerialize(IOEnv.VERIF_CASES, SetToSeq({Case(o, f, a) : o \in {"linear", "cubic"}, f \in Perms, a \in [1..3 -> 1..3]} \cup {Case2(f, a) : f \in P4, a \in [1..4 -> 1..3]}))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
