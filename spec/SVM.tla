-------------------------------- MODULE SVM --------------------------------
(***************************************************************************)
(* Support vector machines: the kernel expansion over support vectors, the *)
(* constraints of the dual problem, and its optimality conditions.         *)
(***************************************************************************)
EXTENDS Judge, FiniteSetsExt, TLC
Gamma(k, X) == IF RLt(R0, k.gamma) THEN k.gamma ELSE RDiv(R1, RInt(Cols(X)))
\* the kernel of two rows, with the gamma already resolved
Ker(k, g, a, b) ==
  CASE k.name = "linear" -> RDot(a, b)
    [] k.name \in {"poly", "polynomial"} -> RPow(RAdd(RMul(g, RDot(a, b)), k.coef0), k.degree)
    [] k.name = "sigmoid" -> RTanh(RAdd(RMul(g, RDot(a, b)), k.coef0))
    \* a function of the user's: 1 + 2 a.b ; a Kernel of the user's: 1/(1+|a-b|^2)
    [] k.name = "func" -> RAdd(R1, RMul("2", RDot(a, b)))
    [] k.name = "iface" -> RDiv(R1, RAdd(R1, SqDist(a, b)))
    [] OTHER -> RExp(RNeg(RMul(g, SqDist(a, b))))
(* m: [support, alphas, b, sv], signed: coefficient of each support vector *)
Signed(kind, m, Y, o) == [j \in 1..Len(m.support) |-> IF kind = "svc" THEN RMul(m.alphas[j], Y[m.support[j] + 1][o]) ELSE m.alphas[j]]
Terms(k, g, m, S, X, q) == [j \in 1..Len(S) |-> RMul(S[j], Ker(k, g, X[m.support[j] + 1], q))]
Decision(k, g, m, S, X, q) == RAdd(m.b, RSum(TLCEval(Terms(k, g, m, S, X, q))))
\* rounding room of the expansion
Room(k, g, m, S, X, q) == RMul(Tol, RAdd(R1, RAdd(RAbs(m.b), RSum(Map(TLCEval(Terms(k, g, m, S, X, q)), RAbs)))))
DualOK(in, m, o) ==
  LET n == Len(in.X)
      S == TLCEval(Signed(in.kind, m, in.Y, o))
      C == RAdd(in.C, Tol)
  IN /\ Len(m.support) = Len(m.alphas) /\ Len(m.sv) = Len(m.support)
     /\ \A j \in 1..Len(m.support) : m.support[j] \in 0..(n-1) /\ m.sv[j] = in.X[m.support[j] + 1]
     /\ \A j \in 1..(Len(m.support) - 1) : m.support[j] < m.support[j+1]
     /\ \A j \in 1..Len(m.alphas) : IF in.kind = "svc" THEN RLt(R0, m.alphas[j]) /\ RLe(m.alphas[j], C) ELSE RLe(RAbs(m.alphas[j]), C)
     \* multipliers up to the tolerance are not retained
     /\ RLe(RAbs(RSum(S)), RAdd(Tol, RMul(in.tol, RInt(n - Len(m.support)))))
\* Optimality of the classifier's multipliers: with G(i) = y(i) - sum of the expansion, no multiplier that can move
\* the decision up has a G above that of one that can move it down, beyond the tolerance (then some bias satisfies
\* the margin conditions); and the bias is near that interval.
Optimal(in, g, m, o) ==
  LET S == TLCEval(Signed(in.kind, m, in.Y, o))
      n == Len(in.X)
      MaxK == RMaxSeq([j \in 1..n |-> RAbs(Ker(in.k, g, in.X[j], in.X[j]))])
      slack == RAdd(in.eps, RMul(RMul(in.tol, RInt(2 * n)), RAdd(R1, MaxK)))
      G == TLCEval([i \in 1..n |-> RSub(in.Y[i][o], RSum(TLCEval(Terms(in.k, g, m, S, in.X, in.X[i]))))])
      At(i) == {j \in 1..Len(m.support) : m.support[j] = i - 1}
      al == TLCEval([i \in 1..n |-> IF At(i) = {} THEN R0 ELSE m.alphas[CHOOSE j \in At(i) : TRUE]])
      below == {i \in 1..n : RLt(al[i], RSub(in.C, in.tol))}
      above == {i \in 1..n : RLt(in.tol, al[i])}
      pos == {i \in 1..n : RLt(R0, in.Y[i][o])}
      up == (below \cap pos) \cup (above \ pos)
      low == (above \cap pos) \cup (below \ pos)
  IN /\ \A i \in up : \A j \in low : RLe(G[i], RAdd(G[j], RMul("2", slack)))
     /\ \A i \in up : RLe(G[i], RAdd(m.b, RAdd(RHalf, slack)))
     /\ \A i \in low : RLe(m.b, RAdd(G[i], RAdd(RHalf, slack)))
\* some retained multiplier is strictly inside its bounds, so that it determines the bias
Inside(in, m) == \E j \in 1..Len(m.alphas) : RLt(RMul("2", in.tol), m.alphas[j]) /\ RLt(m.alphas[j], RSub(in.C, RMul("2", in.tol)))
PredictOK(in, g, m, o, q, v) ==
  LET S == TLCEval(Signed(in.kind, m, in.Y, o))
      d == Decision(in.k, g, m, S, in.X, q)
      e == Room(in.k, g, m, S, in.X, q)
  IN IF in.kind = "svc" THEN \/ v = "1" /\ RLe(RNeg(e), d)
                             \/ v = "0" /\ RLt(d, e)
     ELSE RLe(RAbs(RSub(v, d)), e)
=============================================================================
