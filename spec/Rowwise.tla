------------------------------ MODULE Rowwise ------------------------------
(***************************************************************************)
(* Row-wise feature transforms. cfg.kind: "norm" (norm, axis), "binarize"  *)
(* (threshold), "poly" (degree, inter, bias), "impute" (strategy),         *)
(* "kcenter", "func".                                                      *)
(***************************************************************************)
EXTENDS TransHist, FiniteSetsExt
NormOf(n, v) == LET a == [j \in 1..Len(v) |-> RAbs(v[j])] IN
  CASE n = "l1" -> RSum(a) [] n = "l2" -> Norm2(v) [] n = "max" -> RMaxSeq(a)
NormV(n, v) == LET q == NormOf(n, v) IN IF REq(q, R0) THEN v ELSE [j \in 1..Len(v) |-> RDiv(v[j], q)]
NormM(cfg, X) == IF cfg.axis = 1 THEN [i \in 1..Len(X) |-> NormV(cfg.norm, X[i])]
                 ELSE Transpose([j \in 1..Cols(X) |-> NormV(cfg.norm, Col(X, j))])
Binarize(cfg, X) == [i \in 1..Len(X) |-> [j \in 1..Len(X[i]) |-> IF RLt(cfg.threshold, X[i][j]) THEN R1 ELSE R0]]
\* the exponent vectors asked for
Powers(cfg, n) == {f \in [1..n -> 0..(IF cfg.inter THEN (IF cfg.degree > 0 THEN 1 ELSE 0) ELSE cfg.degree)] :
                     LET t == FoldSet(LAMBDA j, a : f[j] + a, 0, 1..n) IN t <= cfg.degree /\ (t > 0 \/ cfg.bias)}
RECURSIVE PowN(_, _)
PowN(x, n) == IF n = 0 THEN R1 ELSE RMul(x, PowN(x, n - 1))
RECURSIVE Mono(_, _, _)
Mono(row, p, n) == IF n = 0 THEN R1 ELSE RMul(PowN(row[n], p[n]), Mono(row, p, n - 1))
PolyM(pw, X) == [i \in 1..Len(X) |-> [q \in 1..Len(pw) |-> Mono(X[i], pw[q], Len(X[i]))]]
\* missing values
Present(v) == SelectSeq(v, LAMBDA x : x # "nan")
CountIn(v, x) == Cardinality({j \in 1..Len(v) : v[j] = x})
LowerMedian(v) == Sorted(v)[(Len(v) + 1) \div 2]
FillOK(cfg, v, x) ==
  CASE cfg.strategy = "median" -> x = LowerMedian(v)
    [] cfg.strategy = "most_frequent" -> \E j \in 1..Len(v) : x = v[j] /\ \A l \in 1..Len(v) : CountIn(v, v[l]) <= CountIn(v, v[j])
    [] OTHER -> Near(x, RMean(v))
ImputeOK(cfg, F, X, out) ==
  /\ IsMatrix(out, Len(X), Cols(X))
  /\ \A j \in 1..Cols(X) :
       LET v == Present(Col(F, j))
           holes == {i \in 1..Len(X) : X[i][j] = "nan"}
       IN /\ \A i \in 1..Len(X) : IF i \in holes THEN FillOK(cfg, v, out[i][j]) ELSE out[i][j] = X[i][j]
          /\ \A a, b \in holes : out[a][j] = out[b][j]
\* centering a kernel matrix K against the fitted one
KCenter(F, K) ==
  LET colMean == [j \in 1..Cols(F) |-> RMean(Col(F, j))]
      all == RMean(colMean)
  IN [i \in 1..Len(K) |-> LET rm == RMean(K[i]) IN
       [j \in 1..Len(K[i]) |-> RAdd(RSub(RSub(K[i][j], colMean[j]), rm), all)]]
MapAll(M, f(_)) == [i \in 1..Len(M) |-> [j \in 1..Len(M[i]) |-> f(M[i][j])]]
=============================================================================
