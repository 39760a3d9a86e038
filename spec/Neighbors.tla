----------------------------- MODULE Neighbors -----------------------------
(***************************************************************************)
(* Exact neighbour search under a Minkowski metric of order p ("inf" for   *)
(* the maximum norm). Everything is stated on p-th powers of distances,    *)
(* which are exact rationals for integer p; no search algorithm is         *)
(* described, only which answers are right.                                *)
(***************************************************************************)
EXTENDS HistJudge, FiniteSetsExt, SequencesExt
RECURSIVE IPow(_, _)
IPow(a, n) == IF n = 0 THEN R1 ELSE RMul(a, IPow(a, n - 1))
Powr(a, p) == CASE p = "inf" -> a [] p = "1" -> a [] p = "2" -> RSq(a) [] p = "3" -> IPow(a, 3) [] OTHER -> RPow(a, p)
\* the p-th power of the distance (the distance itself for "inf")
DistP(u, v, p) == LET d == TLCEval([i \in 1..Len(u) |-> Powr(RAbs(RSub(u[i], v[i])), p)])
                  IN IF p = "inf" THEN RMaxSeq(d) ELSE RSum(d)
Unpow(a, p) == CASE p = "inf" -> a [] p = "1" -> a [] p = "2" -> RSqrt(a) [] OTHER -> RPow(a, RDiv(R1, p))
Dist(u, v, p) == Unpow(DistP(u, v, p), p)
AllDistP(T, q, p) == TLCEval([i \in 1..Len(T) |-> DistP(T[i], q, p)])
\* a is clearly less than b (beyond rounding)
Below(a, b) == RLt(RMul(a, "1000000001/1000000000"), b)
Index(s) == RFloor(s) + 1
IsIndex(s, n) == RFinite(s) /\ REq(s, RInt(RFloor(s))) /\ Index(s) \in 1..n
\* ds, is: distances and 0-based indices returned for query q with k neighbours of T
ValidKNN(T, q, p, k, ds, is) ==
  LET D == AllDistP(T, q, p)
      chosen == {Index(is[a]) : a \in 1..k}
  IN /\ Len(ds) = k /\ Len(is) = k
     /\ \A a \in 1..k : IsIndex(is[a], Len(T))
     /\ Cardinality(chosen) = k
     /\ \A a \in 1..k : Near(ds[a], Unpow(D[Index(is[a])], p))
     /\ \A a \in 1..(k - 1) : RLe(ds[a], ds[a + 1])
     /\ LET worst == RMaxSeq([a \in 1..k |-> D[Index(is[a])]])
        IN \A j \in 1..Len(T) : j \in chosen \/ ~Below(D[j], worst)
\* a bounded, possibly approximate query of a kd-tree: eps relative error, only within the bound, missing ones infinite
ValidTreeQuery(T, q, p, k, eps, bound, ds, is) ==
  LET D == TLCEval([i \in 1..Len(T) |-> Dist(T[i], q, p)])
      found == {a \in 1..k : ds[a] # "inf"}
      m == Cardinality(found)
      chosen == {Index(is[a]) : a \in found}
      inside == IF bound = "inf" THEN 1..Len(T) ELSE {j \in 1..Len(T) : Below(RMul(D[j], RAdd(R1, eps)), bound)}
      factor == RAdd(R1, eps)
  IN /\ Len(ds) = k /\ Len(is) = k
     /\ found = 1..m
     /\ \A a \in found : IsIndex(is[a], Len(T)) /\ Near(ds[a], D[Index(is[a])]) /\ (bound = "inf" \/ ~Below(bound, ds[a]))
     /\ \A a \in (1..k) \ found : REq(is[a], RInt(Len(T)))
     /\ Cardinality(chosen) = m
     /\ \A a \in 1..(m - 1) : RLe(ds[a], ds[a + 1])
     /\ m < k => inside \subseteq chosen
     /\ m > 0 => \A j \in inside : j \in chosen \/ ~Below(RMul(D[j], factor), ds[m])
\* the radius search: exact when the arithmetic of the code is exact
ValidRadius(T, q, p, rad, exact, ds, is) ==
  LET D == AllDistP(T, q, p)
      rp == Powr(rad, p)
      chosen == {is[a] + 1 : a \in 1..Len(is)}
  IN /\ Len(ds) = Len(is) /\ Cardinality(chosen) = Len(is)
     /\ chosen \subseteq 1..Len(T)
     /\ \A a \in 1..Len(is) : Near(ds[a], Unpow(D[is[a] + 1], p))
     /\ IF exact THEN chosen = {j \in 1..Len(T) : RLe(D[j], rp)}
        ELSE /\ {j \in 1..Len(T) : Below(D[j], rp)} \subseteq chosen
             /\ \A j \in chosen : ~Below(rp, D[j])
=============================================================================
