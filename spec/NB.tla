--------------------------------- MODULE NB ---------------------------------
(***************************************************************************)
(* Gaussian naive Bayes with incremental fitting. The state of an          *)
(* estimator is what it has been shown since the last full fit: the class  *)
(* list it was told first, the weighted samples, and the last batch (whose *)
(* largest feature variance sets the variance floor).                      *)
(***************************************************************************)
EXTENDS HistJudge, FiniteSetsExt, SequencesExt
Sorted(S) == SetToSortSeq(S, LAMBDA a, b : RLt(a, b))
Distinct(Y) == Sorted({Y[i][1] : i \in 1..Len(Y)})
Ones(n) == [i \in 1..n |-> R1]
Wts(w, n) == IF Len(w) = 0 THEN Ones(n) ELSE w
WMean(x, w) == RDiv(RDot(x, w), RSum(w))
WVar(x, w) == LET m == WMean(x, w) IN RDiv(RDot([i \in 1..Len(x) |-> RSq(RSub(x[i], m))], w), RSum(w))
Epsilon(cfg, X, w) == RMul(cfg.smooth, RMaxSeq([f \in 1..Cols(X) |-> WVar(Col(X, f), w)]))
RowsOf(s, c) == SelectSeq([i \in 1..Len(s.y) |-> i], LAMBDA i : s.y[i] = c)
At(x, idx) == [i \in 1..Len(idx) |-> x[idx[i]]]
\* the model of a state
Fresh == [classes |-> <<>>, X |-> <<>>, y |-> <<>>, w |-> <<>>, eps |-> "0"]
Show(cfg, s, classes, X, Y, w) ==
  LET ws == Wts(w, Len(X))
  IN [classes |-> IF Len(s.classes) = 0 THEN classes ELSE s.classes,
      X |-> s.X \o X, y |-> s.y \o Col(Y, 1), w |-> s.w \o ws, eps |-> Epsilon(cfg, X, ws)]
Count(s, c) == RSum(At(s.w, RowsOf(s, c)))
Mean(s, c) == LET R == RowsOf(s, c) IN [f \in 1..Cols(s.X) |-> IF Len(R) = 0 THEN R0 ELSE WMean(At(Col(s.X, f), R), At(s.w, R))]
Var(s, c) == LET R == RowsOf(s, c) IN [f \in 1..Cols(s.X) |-> RAdd(s.eps, IF Len(R) = 0 THEN R0 ELSE WVar(At(Col(s.X, f), R), At(s.w, R)))]
Prior(cfg, s, c) == IF Len(cfg.priors) > 0 THEN cfg.priors[c] ELSE RDiv(Count(s, s.classes[c]), RSum(s.w))
ModelOf(cfg, s) ==
  LET K == 1..Len(s.classes)
  IN [classes |-> s.classes, count |-> [c \in K |-> Count(s, s.classes[c])], prior |-> [c \in K |-> Prior(cfg, s, c)],
      mean |-> [c \in K |-> Mean(s, s.classes[c])], var |-> [c \in K |-> Var(s, s.classes[c])]]
VarClose(a, b) == RLe(RAbs(RSub(a, b)), RMul("1/1000000", RAbs(b)))
ModelOK(cfg, s, r) ==
  LET m == ModelOf(cfg, s)
      K == 1..Len(m.classes)
  IN /\ r.classes = m.classes /\ NearAll(r.count, m.count) /\ NearAll(r.prior, m.prior) /\ NearAll(r.theta, m.mean)
     /\ \A c \in K : \A f \in 1..Cols(s.X) : VarClose(r.sigma[c][f], m.var[c][f])
TwoPi == "6283185307179586476925286766559/1000000000000000000000000000000"
\* joint log likelihood of a row and each class
Joint(m, x) == [c \in 1..Len(m.classes) |->
   IF RLe(m.prior[c], R0) THEN "-inf" ELSE
   RSub(RLn(m.prior[c]), RSum([f \in 1..Len(x) |-> RMul(RHalf, RAdd(RLn(RMul(TwoPi, m.var[c][f])), RDiv(RSq(RSub(x[f], m.mean[c][f])), m.var[c][f])))]))]
Finites(j) == SelectSeq(j, LAMBDA v : RFinite(v))
Slack(j) == RMul(Tol, RMaxSeq(<<R1>> \o Map(Finites(j), RAbs)))
LogSumExp(j) == LET f == Finites(j)
                    top == RMaxSeq(f)
                IN RAdd(top, RLn(RSum(Map(f, LAMBDA v : RExp(RMax(RSub(v, top), "-700"))))))
LogProbaOK(j, lp) == Len(lp) = Len(j) /\ \A c \in 1..Len(j) :
   IF RFinite(j[c]) THEN RLe(RAbs(RSub(lp[c], RSub(j[c], LogSumExp(j)))), Slack(j)) ELSE lp[c] = "-inf"
ProbaOK(j, p) == Len(p) = Len(j) /\ RLe(RAbs(RSub(RSum(p), R1)), Slack(j)) /\ \A c \in 1..Len(j) :
   IF RFinite(j[c]) THEN RLe(RAbs(RSub(p[c], RExp(RMax(RSub(j[c], LogSumExp(j)), "-700")))), Slack(j)) ELSE p[c] = "0"
PredictOK(m, j, v) == \E c \in 1..Len(j) : /\ m.classes[c] = v /\ RFinite(j[c])
   /\ \A d \in 1..Len(j) : RFinite(j[d]) => RLe(j[d], RAdd(j[c], Slack(j)))
=============================================================================
