---------------------------- MODULE AdaptersGen ----------------------------
(* Every adapter term of depth two over a 3x3 store; every cell of each is read and, where it denotes a stored cell, written. *)
EXTENDS Adapters, SequencesExt, Json, IOUtils, TLC
St == << <<"11", "12", "13">>, <<"21", "22", "23">>, <<"31", "32", "33">> >>
Base == [k |-> "base"]
Dense1 == {Base} \cup {[k |-> "drows", a |-> Base, s |-> s, e |-> e] : s \in 0..2, e \in 1..3} \cup {[k |-> "dcols", a |-> Base, j |-> s, l |-> e] : s \in 0..2, e \in 1..3}
          \cup {[k |-> "dslice", a |-> Base, s |-> s, e |-> s + 1 + x, j |-> j, l |-> j + 1 + y] : s \in 0..1, j \in 0..1, x \in 0..1, y \in 0..1}
OKDense == {t \in Dense1 : LET d == DimsOf(t, <<3, 3>>) IN d[1] > 0 /\ d[2] > 0}
Up(T) == {[k |-> "tr", a |-> t] : t \in T} \cup {[k |-> "ones", a |-> t] : t \in T}
         \cup {u \in {[k |-> "rows", a |-> t, s |-> s, e |-> e] : t \in T, s \in 0..2, e \in 1..3} : u.s < u.e /\ u.e <= DimsOf(u.a, <<3, 3>>)[1]}
Level1 == OKDense \cup Up(OKDense)
Level2 == Up(Up({Base}))
RECURSIVE HasOnes(_)
HasOnes(t) == IF t.k = "ones" THEN TRUE ELSE IF t.k = "base" THEN FALSE ELSE HasOnes(t.a)
Fresh(d) == [i \in 1..d[1] |-> [j \in 1..d[2] |-> RInt(100 + 10 * i + j)]]
Case(t) ==
  LET d == DimsOf(t, <<3, 3>>)
      cells == SetToSeq({c \in (1..d[1]) \X (1..d[2]) : ~CellOf(t, c[1], c[2]).c})
  IN [op |-> "hist", in |-> [store |-> St, ops |->
       <<[name |-> "read", t |-> t]>> \o [n \in 1..Len(cells) |-> [name |-> "set", t |-> t, i |-> cells[n][1], j |-> cells[n][2], v |-> RInt(50 + n)]]
       \o <<[name |-> "dense", t |-> t]>> \o (IF HasOnes(t) THEN <<>> ELSE <<[name |-> "from", t |-> t, M |-> Fresh(d)]>>)
       \o <<[name |-> "outside", t |-> t, i |-> d[1] + 1, j |-> 1], [name |-> "outside", t |-> t, i |-> 0, j |-> 1], [name |-> "outside", t |-> t, i |-> 1, j |-> d[2] + 1]>>]]
ASSUME ndJsonSerialize(IOEnv.VERIF_CASES, SetToSeq({Case(t) : t \in Level1 \cup Level2}))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
