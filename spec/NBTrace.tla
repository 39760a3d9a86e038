------------------------------- MODULE NBTrace -------------------------------
EXTENDS NB
\* the state holds one entry per estimator: the original and its clones
TheInit(in) == [cfg |-> in.cfg, est |-> <<Fresh>>]
After(st, op) ==
  LET s == st.est[op.m]
  IN CASE op.o = "fit" -> Show(st.cfg, Fresh, Distinct(op.Y), op.X, op.Y, op.w)
       [] op.o = "partial" -> Show(st.cfg, IF op.refit THEN Fresh ELSE s, op.classes, op.X, op.Y, op.w)
       [] OTHER -> s
TheNext(st, op) == IF op.o = "clone" THEN [st EXCEPT !.est = Append(@, st.est[op.m])] ELSE [st EXCEPT !.est[op.m] = After(st, op)]
TheOK(st, op, r) ==
  CASE op.o \in {"fit", "partial"} -> ModelOK(st.cfg, After(st, op), r)
    [] op.o = "clone" -> r.ok
    [] OTHER ->
         LET m == ModelOf(st.cfg, st.est[op.m])
             J == [i \in 1..Len(op.X) |-> Joint(m, op.X[i])]
         IN CASE op.o = "predict" -> IsMatrix(r.P, Len(op.X), 1) /\ \A i \in 1..Len(op.X) : PredictOK(m, J[i], r.P[i][1])
              [] op.o = "logproba" -> Len(r.P) = Len(op.X) /\ \A i \in 1..Len(op.X) : LogProbaOK(J[i], r.P[i])
              [] op.o = "proba" -> Len(r.P) = Len(op.X) /\ \A i \in 1..Len(op.X) : ProbaOK(J[i], r.P[i])
              [] op.o = "score" -> /\ Near(r.score, RDiv(RInt(Cardinality({i \in 1..Len(op.Y) : r.P[i] = op.Y[i]})), RLen(op.Y)))
                                   /\ \A i \in 1..Len(op.X) : PredictOK(m, J[i], r.P[i][1])
=============================================================================
