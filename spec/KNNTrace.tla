------------------------------ MODULE KNNTrace ------------------------------
EXTENDS KNN
TheInit(in) == [cfg |-> in.cfg, T |-> <<>>, Y |-> <<>>]
TheNext(s, op) == IF op.o = "fit" THEN [s EXCEPT !.T = op.X, !.Y = op.Y] ELSE s
TheOK(s, op, r) ==
  CASE op.o = "fit" /\ s.cfg.kind # "centroid" -> r.ok
    [] op.o = "fit" -> CentroidsOK([s EXCEPT !.T = op.X, !.Y = op.Y], r.C, r.classes, r.counts)
    [] op.o = "predict" ->
         /\ IsMatrix(r.P, Len(op.X), Cols(s.Y))
         /\ \A i \in 1..Len(op.X) :
              (CASE s.cfg.kind = "knc" -> ClassOK(s, op.X[i], r.P[i])
                [] s.cfg.kind = "knr" -> MeanOK(s, op.X[i], r.P[i])
                [] s.cfg.kind = "centroid" -> NearestOK(s, r.C, op.X[i], r.P[i]))
    [] op.o = "proba" -> Len(r.P) = Len(op.X) /\ \A i \in 1..Len(op.X) : ProbaOK(s, op.X[i], r.P[i])
    [] op.o = "score" -> Near(r.score, IF s.cfg.kind = "knr" THEN R2Of(r.P, op.Y) ELSE Hits(r.P, op.Y))
=============================================================================
