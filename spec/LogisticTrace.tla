---------------------------- MODULE LogisticTrace ----------------------------
(* st.est: for each estimator handle, its settings and the data it was last fitted on *)
EXTENDS Logistic
TheInit(in) == [alpha |-> in.alpha, eps |-> in.eps, est |-> <<[fitted |-> FALSE]>>]
Fitted(st, op) == [fitted |-> TRUE, X |-> op.X, Y |-> op.Y, alpha |-> st.alpha, eps |-> st.eps]
TheNext(st, op) ==
  CASE op.op = "fit" -> [st EXCEPT !.est[op.h] = Fitted(st, op)]
    [] op.op = "clone" -> [st EXCEPT !.est = Append(@, st.est[op.h])]
    [] OTHER -> st
TheOK(st, op, r) ==
  CASE op.op = "fit" -> FitOK(Fitted(st, op), r)
    [] op.op = "clone" -> r.ok
    [] op.op = "predict" -> FitOK(st.est[op.h], r) /\ PredOK(st.est[op.h], r, op.Q)
    [] op.op = "score" -> FitOK(st.est[op.h], r) /\ PredOK(st.est[op.h], r, op.Q) /\ Near(r.score, Hits(r.Y, op.SY))
=============================================================================
