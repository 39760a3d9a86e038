------------------------------- MODULE KMeans -------------------------------
(***************************************************************************)
(* Lloyd's iteration: points X, centroids C, labels L (1-based).           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Reals, FiniteSetsExt
Members(L, c) == {i \in 1..Len(L) : L[i] = c}
MeanOf(X, S) == [f \in 1..Cols(X) |-> RDiv(FoldSet(LAMBDA i, a : RAdd(a, X[i][f]), R0, S), RInt(Cardinality(S)))]
Closest(C, x, c) == \A e \in 1..Len(C) : RLe(SqDist(C[c], x), SqDist(C[e], x))
\* up to rounding
AboutClosest(C, x, c) == c \in 1..Len(C) /\ \A e \in 1..Len(C) : LET d == SqDist(C[e], x) IN RLe(SqDist(C[c], x), RAdd(d, RMul("1/100000000", RAdd(R1, d))))
\* the same for the user's distance, the sum of w[f] (x[f]-y[f])^2
WDist(w, x, y) == RSum([f \in 1..Len(x) |-> LET d == RSub(x[f], y[f]) IN RMul(w[f], RMul(d, d))])
AboutClosestW(w, C, x, c) ==
  IF \A f \in 1..Len(w) : w[f] = R1 THEN AboutClosest(C, x, c)
  ELSE c \in 1..Len(C) /\ \A e \in 1..Len(C) : LET d == WDist(w, C[e], x) IN RLe(WDist(w, C[c], x), RAdd(d, RMul("1/100000000", RAdd(R1, d))))
Stationary(X, C, L) == \A c \in 1..Len(C) : Members(L, c) = {} \/ NearAll(C[c], MeanOf(X, Members(L, c)))
Inertia(X, C, L) == RSum([i \in 1..Len(X) |-> SqDist(X[i], C[L[i]])])
=============================================================================
