---------------------------- MODULE PowersTrace ----------------------------
EXTENDS Powers
TheOK(s, op, r) ==
  CASE op.o = "transform" /\ s.cfg.kind = "quantile" ->
         LET F == s.obj[op.p].X
             Q == [j \in 1..Cols(F) |-> Quants(Col(F, j), s.cfg.nq)]
         IN /\ IsMatrix(r.X, Len(op.X), Cols(op.X)) /\ r.Y = op.Y
            /\ \A i \in 1..Len(op.X) : \A j \in 1..Cols(op.X) : QOK(Q[j], op.X[i][j], r.X[i][j])
            /\ MonotoneIn(op.X, r.X)
    [] op.o = "fittransform" /\ s.cfg.kind = "power" -> PTOK(s.cfg, r.lam, op.X, op.X, r.X) /\ r.Y = op.Y
    [] op.o = "transform" /\ s.cfg.kind = "power" -> PTOK(s.cfg, r.lam, s.obj[op.p].X, op.X, r.X) /\ MonotoneIn(op.X, r.X) /\ r.Y = op.Y
    [] op.o = "fixed" -> /\ NearAll(r.X, [i \in 1..Len(op.X) |-> [j \in 1..Cols(op.X) |-> PT(s.cfg, op.lam[j], op.X[i][j])]])
                         /\ RCloseAll(r.back, op.X, "1/1000000")
    [] op.o = "roundtrip" -> RCloseAll(r.X, op.X, "1/10000")
    [] op.o = "lambdas" -> LET F == s.obj[op.p].X IN Len(r.lam) = Cols(F) /\ \A j \in 1..Cols(F) : LambdaOK(s.cfg, Col(F, j), r.lam[j])
    [] OTHER -> TRUE
=============================================================================
