------------------------------- MODULE LossesDefs -------------------------------
(***************************************************************************)
(* Loss functions of the linear models as functions of the data and the    *)
(* parameters, with their gradients derived by the chain rule; activation  *)
(* functions and their derivatives with respect to their argument.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, Reals
Sigma(z) == RDiv(R1, RAdd(R1, RExp(RNeg(z))))
Act(a, z) == CASE a = "identity" -> z
               [] a = "logistic" -> Sigma(z)
               [] a = "tanh" -> RTanh(z)
               [] a = "relu" -> RMax(R0, z)
ActD(a, z) == CASE a = "identity" -> R1
                [] a = "logistic" -> RMul(Sigma(z), Sigma(RNeg(z)))
                [] a = "tanh" -> RSub(R1, RSq(RTanh(z)))
                [] a = "relu" -> IF RLt(R0, z) THEN R1 ELSE R0
Point(kind, y, h) ==   \* loss of one prediction
  CASE kind = "square" -> RSq(RSub(h, y))
    [] kind = "log" -> RNeg(RMul(y, RLn(h)))
    [] kind = "cross-entropy" -> RNeg(RAdd(RMul(y, RLn(h)), RMul(RSub(R1, y), RLn(RSub(R1, h)))))
PointD(kind, y, h) ==  \* its derivative with respect to the prediction
  CASE kind = "square" -> RMul("2", RSub(h, y))
    [] kind = "log" -> RNeg(RDiv(y, h))
    [] kind = "cross-entropy" -> RSub(RDiv(RSub(R1, y), RSub(R1, h)), RDiv(y, h))
\* the square loss counts half of everything
Divisor(kind, n) == IF kind = "square" THEN RInt(2 * n) ELSE RInt(n)
\* rows of Theta subject to the penalty
Pen(in) == (IF in.skip1 THEN 2 ELSE 1)..Len(in.Theta)
\* L1 part of one feature: absolute values, or one Euclidean norm for all its outputs
Grouped(in) == in.kind # "cross-entropy" /\ Cols(in.Theta) > 1
L1Of(in, j) == IF Grouped(in) THEN Norm2(in.Theta[j]) ELSE RSum(Map(in.Theta[j], RAbs))
L2Of(in, j) == RMul(IF in.kind = "cross-entropy" THEN RHalf ELSE R1, RDot(in.Theta[j], in.Theta[j]))
SumPen(in, f(_)) == RSum([j \in 1..Len(in.Theta) |-> IF j \in Pen(in) THEN f(j) ELSE R0])
Penalty(in) == IF RLe(in.alpha, R0) THEN R0
               ELSE RMul(in.alpha, RAdd(RMul(in.l1, SumPen(in, LAMBDA j : L1Of(in, j))), RMul(RSub(R1, in.l1), SumPen(in, LAMBDA j : L2Of(in, j)))))
Value(in, H) ==
  RDiv(RAdd(RSum([i \in 1..Len(in.Y) |-> RSum([o \in 1..Cols(in.Y) |-> Point(in.kind, in.Y[i][o], H[i][o])])]), Penalty(in)), Divisor(in.kind, in.n))
\* smooth part of the derivative with respect to Theta[j][o], and the slope of the L1 part
Smooth(in, Z, H, j, o) ==
  RDiv(RAdd(RSum([i \in 1..Len(in.Y) |-> RMul(in.X[i][j], RMul(ActD(in.act, Z[i][o]), PointD(in.kind, in.Y[i][o], H[i][o])))]),
            IF j \in Pen(in) /\ RLt(R0, in.alpha)
            THEN RMul(RMul(IF in.kind = "cross-entropy" THEN R1 ELSE "2", in.alpha), RMul(RSub(R1, in.l1), in.Theta[j][o])) ELSE R0), Divisor(in.kind, in.n))
Slope(in, j) == IF j \in Pen(in) /\ RLt(R0, in.alpha) THEN RDiv(RMul(in.alpha, in.l1), Divisor(in.kind, in.n)) ELSE R0
GradOK(in, Z, H, g) ==
  /\ IsMatrix(g, Len(in.Theta), Cols(in.Theta))
  /\ \A j \in 1..Len(in.Theta) : \A o \in 1..Cols(in.Theta) :
       LET t == in.Theta[j][o]
           size == IF Grouped(in) THEN Norm2(in.Theta[j]) ELSE RAbs(t)
           s == Smooth(in, Z, H, j, o)
       IN IF REq(size, R0) THEN RLe(RAbs(RSub(g[j][o], s)), RAdd(Slope(in, j), Tol))
          ELSE Near(g[j][o], RAdd(s, RMul(Slope(in, j), RDiv(t, size))))
LossOK(in, out) ==
  LET Z == RMatMul(in.X, in.Theta)
      H == [i \in 1..Len(Z) |-> Map(Z[i], LAMBDA z : Act(in.act, z))]
  IN /\ Near(out.J, Value(in, H)) /\ out.J = out.Jonly
     /\ GradOK(in, Z, H, out.grad)
=============================================================================
