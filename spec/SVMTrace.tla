------------------------------ MODULE SVMTrace ------------------------------
EXTENDS SVM
Hits(P, Y) == RDiv(RInt(Cardinality({i \in 1..Len(Y) : P[i] = Y[i]})), RLen(Y))
R2(P, Y) == LET p == Col(P, 1)
                y == Col(Y, 1)
                m == RMean(y)
            IN RSub(R1, RDiv(SqDist(p, y), RSum(Map(y, LAMBDA v : RSq(RSub(v, m))))))
AcceptRecord(r) ==
  LET in == r.in
      g == Gamma(in.k, in.X)
      K == 1..Cols(in.Y)
  IN /\ Len(r.out.models) = Cols(in.Y)
     /\ \A o \in K : DualOK(in, r.out.models[o], o)
     /\ IsMatrix(r.out.P, Len(in.Q), Cols(in.Y))
     /\ \A o \in K : \A i \in 1..Len(in.Q) : PredictOK(in, g, r.out.models[o], o, in.Q[i], r.out.P[i][o])
     \* each output alone gives the same model and the same predictions
     /\ \A o \in K : r.out.alone[o].model = r.out.models[o] /\ Col(r.out.alone[o].P, 1) = Col(r.out.P, o)
     /\ in.conv => \A o \in K : Inside(in, r.out.models[o]) => Optimal(in, g, r.out.models[o], o)
     /\ Len(in.SY) > 0 => Near(r.out.score, IF in.kind = "svc" THEN Hits(r.out.P, in.SY) ELSE R2(r.out.P, in.SY))
=============================================================================
