----------------------------- MODULE RegMetrics -----------------------------
(***************************************************************************)
(* Regression metrics of targets Y and predictions P (matrices) with       *)
(* sample weights w (<<>> for none).                                       *)
(***************************************************************************)
EXTENDS Judge
W(w, i) == IF w = <<>> THEN R1 ELSE w[i]
WMean(v, w) == RDiv(RSum([i \in 1..Len(v) |-> RMul(W(w, i), v[i])]), RSum([i \in 1..Len(v) |-> W(w, i)]))
WSum(v, w) == RSum([i \in 1..Len(v) |-> RMul(W(w, i), v[i])])
Diff(Y, P, j) == VSub(Col(P, j), Col(Y, j))
MSE(Y, P, w) == [j \in 1..Cols(Y) |-> WMean(Map(Diff(Y, P, j), RSq), w)]
MAE(Y, P, w) == [j \in 1..Cols(Y) |-> WMean(Map(Diff(Y, P, j), RAbs), w)]
Spread(Y, w) == [j \in 1..Cols(Y) |-> LET m == WMean(Col(Y, j), w) IN WSum([i \in 1..Len(Y) |-> RSq(RSub(Y[i][j], m))], w)]
R2(Y, P, w) == [j \in 1..Cols(Y) |-> RSub(R1, RDiv(WSum(Map(Diff(Y, P, j), RSq), w), Spread(Y, w)[j]))]
=============================================================================
