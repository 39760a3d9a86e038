---------------------------- MODULE ScalersTrace ----------------------------
EXTENDS Scalers
TheOK(s, op, r) ==
  CASE op.o \in {"transform", "fittransform"} ->
         NearAll(r.X, Apply(Maps(s.cfg, After(s, op).X), op.X)) /\ r.Y = op.Y
    [] op.o = "inverse" -> NearAll(r.X, Undo(Maps(s.cfg, s.obj[op.p].X), op.X)) /\ r.Y = op.Y
    [] op.o = "roundtrip" -> NearAll(r.X, op.X)
    [] op.o = "stats" ->
         LET C == Transpose(op.X) IN
         /\ NearAll(r.mean, Map(C, RMean)) /\ NearAll(r.mean2, Map(C, RMean)) /\ NearAll(r.mean3, Map(C, RMean))
         /\ NearAll(r.var, Map(C, ColVar)) /\ NearAll(r.std, Map(C, LAMBDA v : RSqrt(ColVar(v))))
         /\ NearAll(r.std2, Map(C, LAMBDA v : RSqrt(ColVar(v))))
         /\ NearAll(r.scaled, Apply(Maps([kind |-> "standard", mean |-> TRUE, std |-> TRUE], op.X), op.X))
    [] OTHER -> TRUE
=============================================================================
