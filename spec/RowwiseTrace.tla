---------------------------- MODULE RowwiseTrace ----------------------------
EXTENDS Rowwise
XOK(cfg, F, op, r) ==
  CASE cfg.kind = "norm" -> NearAll(r.X, NormM(cfg, op.X))
    [] cfg.kind = "binarize" -> r.X = Binarize(cfg, op.X)
    [] cfg.kind = "poly" -> LET pw == r.powers IN
         /\ {pw[q] : q \in 1..Len(pw)} = Powers(cfg, Cols(F)) /\ Cardinality(Powers(cfg, Cols(F))) = Len(pw)
         /\ NearAll(r.X, PolyM(pw, op.X))
    [] cfg.kind = "impute" -> ImputeOK(cfg, F, op.X, r.X)
    [] cfg.kind = "kcenter" -> NearAll(r.X, KCenter(F, op.X))
    [] cfg.kind = "func" -> NearAll(r.X, MapAll(op.X, LAMBDA v : RAdd(RMul("2", v), "3")))
YOK(cfg, op, r) == IF cfg.kind = "func" THEN NearAll(r.Y, MapAll(op.Y, LAMBDA v : RNeg(v))) ELSE r.Y = op.Y
TheOK(s, op, r) ==
  CASE op.o \in {"transform", "fittransform"} -> XOK(s.cfg, After(s, op).X, op, r) /\ YOK(s.cfg, op, r)
    [] op.o = "roundtrip" -> NearAll(r.X, op.X) /\ NearAll(r.Y, op.Y)
    [] op.o = "dummy" -> r.X = [i \in 1..Len(op.X) |-> <<R1>> \o op.X[i]]
    [] OTHER -> TRUE
=============================================================================
