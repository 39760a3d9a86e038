---------------------------- MODULE RankingTrace ----------------------------
EXTENDS Ranking
AcceptRecord(r) ==
  CASE r.op = "curve" ->
         LET y == Col(r.in.Y, 1)
             s == Col(r.in.S, 1)
             roc == ROC(y, s, r.in.pos, r.in.w)
             pr == PR(y, s, r.in.pos, r.in.w)
         IN /\ NearAll(r.out.fpr, Col(roc, 1)) /\ NearAll(r.out.tpr, Col(roc, 2)) /\ NearAll(r.out.rth, Col(roc, 3))
            /\ Near(r.out.auc, AUCOf(y, s, r.in.pos, r.in.w))
            /\ NearAll(r.out.prec, pr.prec) /\ NearAll(r.out.rec, pr.rec) /\ NearAll(r.out.pth, pr.th)
    [] r.op = "average" ->
         /\ Near(r.out.auc, AverageOf(AUCOf, r.in.Y, r.in.S, r.in.w, r.in.mode))
         /\ Near(r.out.ap, AverageOf(APOf, r.in.Y, r.in.S, r.in.w, r.in.mode))
=============================================================================
