-------------------------------- MODULE PCA --------------------------------
(***************************************************************************)
(* Principal components without centering: right singular vectors V of the *)
(* fitted matrix X (n by d), singular values s. The axes are observed      *)
(* through the public API: transforming the identity gives the kept axes.  *)
(***************************************************************************)
EXTENDS TransHist
T6 == "1/1000000"
Smaller(a, b) == IF a < b THEN a ELSE b
Scale(X) == RMax(R1, RMaxSeq([i \in 1..Len(X) |-> RMaxSeq([j \in 1..Len(X[i]) |-> RAbs(X[i][j])])]))
CloseTo(a, b, sc) == RLe(RAbs(RSub(a, b)), RMul(T6, sc))
MClose(A, B, sc) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : Len(A[i]) = Len(B[i]) /\ \A j \in 1..Len(A[i]) : CloseTo(A[i][j], B[i][j], sc)
Orthonormal(V, k) == \A a, b \in 1..k : CloseTo(RDot(Col(V, a), Col(V, b)), IF a = b THEN R1 ELSE R0, R1)
\* X V is diag(s) up to rotation: its columns are orthogonal with lengths s
SingularOK(X, V, s, k) ==
  LET XV == RMatMul(X, V)
      sc == RMul(RSq(Scale(X)), RMul(RLen(X), RInt(Cols(X))))
  IN \A a, b \in 1..k : CloseTo(RDot(Col(XV, a), Col(XV, b)), IF a = b THEN RSq(s[a]) ELSE R0, sc)
\* the singular values account for all of X
EnergyOK(X, s) == LET e == RSum([i \in 1..Len(X) |-> RDot(X[i], X[i])])
                  IN CloseTo(RSum([a \in 1..Len(s) |-> RSq(s[a])]), e, RMax(R1, e))
Descending(s) == \A a \in 1..Len(s) : RLe(R0, s[a]) /\ (a = Len(s) \/ RLe(s[a + 1], s[a]))
RatiosOK(s, r) == LET e == RSum([a \in 1..Len(s) |-> RSq(s[a])])
                  IN Len(r) = Len(s) /\ \A a \in 1..Len(s) : Near(r[a], RDiv(RSq(s[a]), e)) /\ RLe(R0, r[a]) /\ RLe(r[a], R1)
\* the number of kept components: all, the requested number, or the fewest reaching the requested ratio
RECURSIVE PrefixSum(_, _)
PrefixSum(r, n) == IF n = 0 THEN R0 ELSE RAdd(PrefixSum(r, n - 1), r[n])
KeptOK(cfg, r, k, m) ==
  IF RLt(R0, cfg.minratio)
  THEN /\ k \in 0..m
       /\ RLe(RSub(cfg.minratio, T6), PrefixSum(r, k)) \/ k = m
       /\ k = 0 \/ RLe(PrefixSum(r, k - 1), RAdd(cfg.minratio, T6))
  ELSE k = (IF cfg.ncomp = 0 THEN m ELSE cfg.ncomp)
Project(X, V) == RMatMul(X, V)
Unproject(Z, V) == RMatMul(Z, Transpose(V))
=============================================================================
