---------------------------- MODULE KernelsTrace ----------------------------
(***************************************************************************)
(* Histories over a growing list of kernels (state: the terms). "clone"    *)
(* appends a clone of kernel i, with theta when given; "set" writes one    *)
(* log hyper-parameter of kernel i in place. Regressor records carry one   *)
(* operation each.                                                         *)
(***************************************************************************)
EXTENDS HistJudge, Kernels
TheInit(in) == in.kernels
EvalOK(k, op, r) ==
  LET X == op.X
      Y == IF op.self THEN X ELSE op.Y
      G == Gram(k, X, Y)
  IN /\ IsMatrix(r.K, Len(X), Len(Y)) /\ NearAll(r.K, G)
     /\ op.self => r.K = Transpose(r.K)
     /\ NearAll(r.diag, [i \in 1..Len(X) |-> KVal(k, X[i], X[i])])
     /\ r.stat = Stationary(k)
     /\ op.grad => /\ r.shape = <<Len(X), Len(X), NFree(k)>>
                   /\ \A i, j \in 1..Len(X) : NearAll(r.G[i][j], KGrad(k, X[i], X[j]))
ThetaOK(k, r) ==
  /\ NearAll(r.theta, Theta(k))
  /\ NearAll(r.bounds, [i \in 1..NFree(k) |-> <<RLn(Free(k)[i].lo), RLn(Free(k)[i].hi)>>])
TolK == "1/100000"
GPOK(in, r) ==
  LET k == in.kernel
      Yc == [i \in 1..Len(in.Y) |-> VSub(in.Y[i], Centre(in.Y, in.norm))]
      kt == IF Len(in.theta) > 0 THEN WithTheta(k, in.theta) ELSE k
  IN /\ RClose(r.lml, LML(kt, in.X, Yc, in.alpha), TolK)
     /\ RCloseAll(r.grad, LMLGrad(kt, in.X, Yc, in.alpha), TolK)
     /\ RClose(r.lmlnil, LML(k, in.X, Yc, in.alpha), TolK)
     /\ RCloseAll(r.mean, PostMean(k, in.X, in.Y, in.alpha, in.norm, in.Q), TolK)
     /\ LET C == PostCov(k, in.X, in.alpha, in.Q) IN
        /\ RCloseAll(r.cov, C, TolK)
        /\ RCloseAll([q \in 1..Len(in.Q) |-> RSq(r.std[q])], [q \in 1..Len(in.Q) |-> RMax(R0, C[q][q])], TolK)
PriorOK(in, r) ==
  LET k == in.kernel IN
  /\ \A i \in 1..Len(in.Q) : \A o \in 1..Len(r.mean[i]) : REq(r.mean[i][o], R0)
  /\ Len(r.mean) = Len(in.Q)
  /\ NearAll(r.cov, Gram(k, in.Q, in.Q))
  /\ NearAll([q \in 1..Len(in.Q) |-> RSq(r.std[q])], [q \in 1..Len(in.Q) |-> KVal(k, in.Q[q], in.Q[q])])
TheOK(st, op, r) ==
  CASE op.name = "eval" -> EvalOK(st[op.i], op, r)
    [] op.name = "theta" -> ThetaOK(st[op.i], r)
    [] op.name = "gp" -> GPOK(op, r)
    [] op.name = "prior" -> PriorOK(op, r)
    [] OTHER -> TRUE
SetTheta(k, i, v) == WithTheta(k, [Theta(k) EXCEPT ![i] = v])
TheNext(st, op) ==
  CASE op.name = "clone" -> Append(st, IF op.plain THEN st[op.i] ELSE WithTheta(st[op.i], op.theta))
    [] op.name = "set" -> [st EXCEPT ![op.i] = SetTheta(st[op.i], op.p, op.v)]
    [] op.name = "bound" -> [st EXCEPT ![op.i].lo[op.p] = RDiv(@, "2"), ![op.i].hi[op.p] = RMul("2", @)]   \* wider bounds for one length scale
    [] OTHER -> st
=============================================================================
