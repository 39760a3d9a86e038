---------------------------- MODULE LabelsTrace ----------------------------
EXTENDS Labels
Tabs(cfg, d) == Tables(cfg, Target(cfg, d))
Out(cfg, r) == IF cfg.kind = "onehot" THEN r.X ELSE r.Y
Other(cfg, r) == IF cfg.kind = "onehot" THEN r.Y ELSE r.X
TheOK(s, op, r) ==
  CASE op.o \in {"transform", "fittransform"} ->
         /\ Out(s.cfg, r) = Encode(s.cfg, Tabs(s.cfg, After(s, op)), Target(s.cfg, op))
         /\ Other(s.cfg, r) = Other(s.cfg, op)
    [] op.o = "roundtrip" -> Out(s.cfg, r) = Target(s.cfg, op)
    [] op.o = "attrs" ->
         LET M == Target(s.cfg, s.obj[op.p]) IN
         IF s.cfg.kind = "multi" THEN r.classes = <<Tables(s.cfg, M)[1]>>
         ELSE /\ r.classes = Tables(s.cfg, M)
              /\ s.cfg.kind = "encoder" =>
                   r.support = [j \in 1..Cols(M) |-> LET t == ClassesOf(Col(M, j)) IN [c \in 1..Len(t) |-> RInt(CountOf(Col(M, j), t[c]))]]
    [] OTHER -> TRUE
=============================================================================
