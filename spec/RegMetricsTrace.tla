-------------------------- MODULE RegMetricsTrace --------------------------
EXTENDS RegMetrics
AcceptRecord(r) ==
  LET Y == r.in.Y
      P == r.in.P
      w == r.in.w
      o == r.out
      r2 == R2(Y, P, w)
  IN CASE r.op = "reg" ->
         /\ NearAll(o.mse.raw, << MSE(Y, P, w) >>) /\ NearAll(o.mse.avg, << << RMean(MSE(Y, P, w)) >> >>)
         /\ NearAll(o.mae.raw, << MAE(Y, P, w) >>) /\ NearAll(o.mae.avg, << << RMean(MAE(Y, P, w)) >> >>)
         /\ NearAll(o.r2.raw, << r2 >>) /\ NearAll(o.r2.avg, << << RMean(r2) >> >>)
         /\ NearAll(o.r2.var, << << RDiv(RDot(Spread(Y, w), r2), RSum(Spread(Y, w))) >> >>)
    [] r.op = "const" ->   \* a constant target predicted exactly scores 1
         NearAll(o.r2.raw, << [j \in 1..Cols(Y) |-> R1] >>)
=============================================================================
