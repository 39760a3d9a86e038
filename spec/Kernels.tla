------------------------------ MODULE Kernels ------------------------------
(***************************************************************************)
(* Gaussian-process kernels as terms.                                      *)
(*   leaves  [op, v, lo, hi] with op "const", "white", "dot";              *)
(*           [op |-> "rbf", ls, lo, hi] one length scale, or one per       *)
(*           feature, each with its bounds                                 *)
(*   nodes   [op |-> "sum" / "prod", a, b], [op |-> "pow", a, e]           *)
(* A hyper-parameter whose bounds coincide is fixed; the others, left to   *)
(* right, are the kernel's parameters, handled by their logarithms.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Reals
PiTwo == "3141592653589793238462643383279/500000000000000000000000000000"   \* 2 pi
SameRow(x, y) == \A j \in 1..Len(x) : REq(x[j], y[j])
Scaled(ls, x, y) == [j \in 1..Len(x) |-> RDiv(RSub(x[j], y[j]), IF Len(ls) = 1 THEN ls[1] ELSE ls[j])]

RECURSIVE KVal(_, _, _)
KVal(k, x, y) ==
  CASE k.op = "const" -> k.v
    [] k.op = "white" -> IF SameRow(x, y) THEN k.v ELSE R0
    [] k.op = "dot" -> RAdd(RSq(k.v), RDot(x, y))
    [] k.op = "rbf" -> LET d == Scaled(k.ls, x, y) IN RExp(RMul("-1/2", RDot(d, d)))
    [] k.op = "sum" -> RAdd(KVal(k.a, x, y), KVal(k.b, x, y))
    [] k.op = "prod" -> RMul(KVal(k.a, x, y), KVal(k.b, x, y))
    [] k.op = "pow" -> RPow(KVal(k.a, x, y), k.e)

\* hyper-parameters in order: [v, lo, hi]
RECURSIVE Hyper(_)
Hyper(k) ==
  CASE k.op = "rbf" -> [i \in 1..Len(k.ls) |-> [v |-> k.ls[i], lo |-> k.lo[i], hi |-> k.hi[i]]]
    [] k.op \in {"sum", "prod"} -> Hyper(k.a) \o Hyper(k.b)
    [] k.op = "pow" -> Hyper(k.a)
    [] OTHER -> <<[v |-> k.v, lo |-> k.lo, hi |-> k.hi]>>
Fixed(h) == REq(h.lo, h.hi)
Free(k) == SelectSeq(Hyper(k), LAMBDA h : ~Fixed(h))
Theta(k) == Map(Free(k), LAMBDA h : RLn(h.v))

\* derivative with respect to each free log hyper-parameter, in order
RECURSIVE KGrad(_, _, _)
KGrad(k, x, y) ==
  CASE k.op \in {"const", "white"} -> IF Fixed(k) THEN <<>> ELSE <<KVal(k, x, y)>>
    [] k.op = "dot" -> IF Fixed(k) THEN <<>> ELSE <<RMul("2", RSq(k.v))>>
    [] k.op = "rbf" ->
         LET d == Scaled(k.ls, x, y)
             K == KVal(k, x, y)
             g == IF Len(k.ls) = 1 THEN <<RMul(K, RDot(d, d))>> ELSE [j \in 1..Len(d) |-> RMul(K, RSq(d[j]))]
             idx == SelectSeq([i \in 1..Len(k.ls) |-> i], LAMBDA i : ~REq(k.lo[i], k.hi[i]))
         IN Map(idx, LAMBDA i : g[i])
    [] k.op = "sum" -> KGrad(k.a, x, y) \o KGrad(k.b, x, y)
    [] k.op = "prod" ->
         LET va == KVal(k.a, x, y)
             vb == KVal(k.b, x, y)
         IN VScale(vb, KGrad(k.a, x, y)) \o VScale(va, KGrad(k.b, x, y))
    [] k.op = "pow" -> VScale(RMul(k.e, RPow(KVal(k.a, x, y), RSub(k.e, R1))), KGrad(k.a, x, y))

\* the kernel with its free hyper-parameters set to exp(theta)
NFree(k) == Len(Free(k))
RECURSIVE WithTheta(_, _)
WithTheta(k, th) ==
  CASE k.op = "rbf" ->
         LET before(i) == Cardinality({j \in 1..i : ~REq(k.lo[j], k.hi[j])})
         IN [k EXCEPT !.ls = [i \in 1..Len(k.ls) |-> IF REq(k.lo[i], k.hi[i]) THEN k.ls[i] ELSE RExp(th[before(i)])]]
    [] k.op \in {"sum", "prod"} ->
         [k EXCEPT !.a = WithTheta(k.a, SubSeq(th, 1, NFree(k.a))), !.b = WithTheta(k.b, SubSeq(th, NFree(k.a) + 1, Len(th)))]
    [] k.op = "pow" -> [k EXCEPT !.a = WithTheta(k.a, th)]
    [] OTHER -> IF Fixed(k) THEN k ELSE [k EXCEPT !.v = RExp(th[1])]
RECURSIVE Stationary(_)
Stationary(k) ==
  CASE k.op = "dot" -> FALSE
    [] k.op \in {"sum", "prod"} -> Stationary(k.a) /\ Stationary(k.b)
    [] k.op = "pow" -> Stationary(k.a)
    [] OTHER -> TRUE

Gram(k, X, Y) == TLCEval([i \in 1..Len(X) |-> [j \in 1..Len(Y) |-> KVal(k, X[i], Y[j])]])

(***************************************************************************)
(* Linear algebra on small exact matrices: Gauss-Jordan without pivoting,  *)
(* enough for positive definite matrices. Rows of [A | B]; the result      *)
(* holds the determinant of A and the rows of A^-1 B.                      *)
(***************************************************************************)
RECURSIVE Eliminate(_, _, _, _)
Eliminate(M, n, c, det) ==
  IF c > n THEN [det |-> det, rows |-> [i \in 1..n |-> SubSeq(M[i], n + 1, Len(M[i]))]]
  ELSE LET piv == M[c][c]
           rowc == VScale(RDiv(R1, piv), M[c])
           N == [i \in 1..n |-> IF i = c THEN rowc ELSE VSub(M[i], VScale(M[i][c], rowc))]
       IN Eliminate(TLCEval(N), n, c + 1, TLCEval(RMul(det, piv)))
Solve(A, B) == TLCEval(Eliminate(TLCEval([i \in 1..Len(A) |-> A[i] \o B[i]]), Len(A), 1, R1))
Identity(n) == [i \in 1..n |-> [j \in 1..n |-> IF i = j THEN R1 ELSE R0]]

\* covariance of the training targets: kernel plus the noise terms on the diagonal
Noise(alpha, i) == IF Len(alpha) = 1 THEN alpha[1] ELSE alpha[i]
Cov(k, X, alpha) == TLCEval([i \in 1..Len(X) |-> [j \in 1..Len(X) |-> IF i = j THEN RAdd(KVal(k, X[i], X[j]), Noise(alpha, i)) ELSE KVal(k, X[i], X[j])]])
LML(k, X, Y, alpha) ==
  LET n == Len(X)
      s == Solve(Cov(k, X, alpha), Y)
      dims == [o \in 1..Cols(Y) |-> RMul("-1/2", RAdd(RAdd(RDot(Col(Y, o), Col(s.rows, o)), RLn(s.det)), RMul(RInt(n), RLn(PiTwo))))]
  IN RSum(dims)
\* derivative: half the trace of (a a' - K^-1) dK, summed over outputs
LMLGrad(k, X, Y, alpha) ==
  LET n == Len(X)
      C == Cov(k, X, alpha)
      s == Solve(C, Y).rows
      inv == Solve(C, Identity(n)).rows
      G == TLCEval([i \in 1..n |-> [j \in 1..n |-> KGrad(k, X[i], X[j])]])
      m == NFree(k)
      W == TLCEval([i \in 1..n |-> [j \in 1..n |-> RSub(RDot(s[i], s[j]), RMul(RInt(Cols(Y)), inv[i][j]))]])
  IN [p \in 1..m |-> RMul(RHalf, RSum([i \in 1..n |-> RDot(W[i], [j \in 1..n |-> G[i][j][p]])]))]
\* posterior at the rows Q
Centre(Y, norm) == [o \in 1..Cols(Y) |-> IF norm THEN RMean(Col(Y, o)) ELSE R0]
PostMean(k, X, Y, alpha, norm, Q) ==
  LET c == Centre(Y, norm)
      Yc == [i \in 1..Len(Y) |-> VSub(Y[i], c)]
      s == Solve(Cov(k, X, alpha), Yc).rows
  IN [q \in 1..Len(Q) |-> [o \in 1..Cols(Y) |-> RAdd(c[o], RDot([i \in 1..Len(X) |-> KVal(k, Q[q], X[i])], Col(s, o)))]]
PostCov(k, X, alpha, Q) ==
  LET T == Gram(k, Q, X)
      v == Transpose(Solve(Cov(k, X, alpha), Transpose(T)).rows)
  IN [p \in 1..Len(Q) |-> [q \in 1..Len(Q) |-> RSub(KVal(k, Q[p], Q[q]), RDot(T[p], v[q]))]]
=============================================================================
