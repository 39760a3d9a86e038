------------------------------- MODULE Powers -------------------------------
(***************************************************************************)
(* Quantile and power transforms.                                          *)
(* cfg.kind = "quantile" (nq): the piecewise linear map sending the i-th   *)
(* of nq evenly spaced quantiles of a fitted column to i/(nq-1), clipped   *)
(* to [1e-7, 1-1e-7]. cfg.kind = "power" (method, standardize).            *)
(***************************************************************************)
EXTENDS TransHist
Eps == "1/10000000"
Slack == "1/1000000000"
Clip(y) == RMax(Eps, RMin(RSub(R1, Eps), y))
Quant(v, nq, i) ==   \* i in 0..nq-1, v sorted
  LET pos == RDiv(RMul(RInt(i), RInt(Len(v) - 1)), RInt(nq - 1))
      lo == RFloor(pos)
      f == RSub(pos, RInt(lo))
  IN IF REq(f, R0) THEN v[lo + 1] ELSE RAdd(RMul(v[lo + 1], RSub(R1, f)), RMul(v[lo + 2], f))
Quants(v, nq) == LET s == TLCEval(Sorted(v)) IN TLCEval([i \in 1..nq |-> Quant(s, nq, i - 1)])
Ref(nq, i) == RDiv(RInt(i - 1), RInt(nq - 1))
QMap(q, x) ==
  LET n == Len(q) IN
  IF RLt(x, q[1]) THEN Eps
  ELSE IF RLt(q[n], x) THEN RSub(R1, Eps)
  ELSE IF RLe(x, q[1]) THEN Eps
  ELSE LET i == CHOOSE j \in 1..(n - 1) : RLt(q[j], x) /\ RLe(x, q[j + 1])
       IN Clip(RAdd(Ref(n, i), RMul(RDiv(RSub(x, q[i]), RSub(q[i + 1], q[i])), RSub(Ref(n, i + 1), Ref(n, i)))))
\* at a repeated quantile the map jumps: any value between the two sides will do there
QOK(q, x, y) ==
  LET d == RMul(Slack, RMax(R1, RAbs(x)))
  IN RLe(QMap(q, RSub(x, d)), RAdd(y, "1/1000000")) /\ RLe(y, RAdd(QMap(q, RAdd(x, d)), "1/1000000"))
     /\ RLe(Eps, RAdd(y, Slack)) /\ RLe(y, RAdd(RSub(R1, Eps), Slack))
MonotoneIn(X, Y) == \A j \in 1..Cols(X) : \A a, b \in 1..Len(X) : RLt(X[a][j], X[b][j]) => RLe(Y[a][j], RAdd(Y[b][j], Slack))
\* Yeo-Johnson and Box-Cox with parameter l
YJ(l, x) ==
  IF RLe(R0, x)
  THEN IF REq(l, R0) THEN RLn(RAdd(x, R1)) ELSE RDiv(RSub(RPow(RAdd(x, R1), l), R1), l)
  ELSE LET m == RSub("2", l) IN
       IF REq(m, R0) THEN RNeg(RLn(RSub(R1, x))) ELSE RNeg(RDiv(RSub(RPow(RSub(R1, x), m), R1), m))
BC(l, x) == IF REq(l, R0) THEN RLn(x) ELSE RDiv(RSub(RPow(x, l), R1), l)
PT(cfg, l, x) == IF cfg.method = "box-cox" THEN BC(l, x) ELSE YJ(l, x)
VarOf(v) == LET m == RMean(v) IN RMean([j \in 1..Len(v) |-> RSq(RSub(v[j], m))])
Signed(cfg, x) == IF cfg.method = "box-cox" THEN RLn(x) ELSE IF RLt(R0, x) THEN RLn(RAdd(x, R1)) ELSE RNeg(RLn(RSub(R1, x)))
LogLike(cfg, v, l) ==
  RAdd(RMul(RDiv(RNeg(RLen(v)), "2"), RLn(VarOf([j \in 1..Len(v) |-> PT(cfg, l, v[j])]))),
       RMul(RSub(l, R1), RSum([j \in 1..Len(v) |-> Signed(cfg, v[j])])))
\* the fitted parameter is a (local) maximum of the likelihood
LambdaOK(cfg, v, l) ==
  LET here == LogLike(cfg, v, l) IN
  \A h \in {"1/100", "-1/100", "1/10", "-1/10"} : RLe(LogLike(cfg, v, RAdd(l, h)), RAdd(here, "1/1000000"))
PTOK(cfg, lam, F, X, out) ==
  /\ Len(lam) = Cols(F) /\ IsMatrix(out, Len(X), Cols(X))
  /\ \A j \in 1..Cols(X) :
       LET t == [i \in 1..Len(X) |-> PT(cfg, lam[j], X[i][j])]
           f == [i \in 1..Len(F) |-> PT(cfg, lam[j], F[i][j])]
           m == RMean(f)
           sd == RSqrt(VarOf(f))
       IN \A i \in 1..Len(X) : RClose(out[i][j], IF cfg.standardize THEN RDiv(RSub(t[i], m), sd) ELSE t[i], "1/1000000")
=============================================================================
