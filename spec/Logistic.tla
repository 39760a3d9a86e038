------------------------------ MODULE Logistic ------------------------------
(***************************************************************************)
(* Logistic regression. State: the data each estimator was last fitted on. *)
(* A fitted estimator holds some coefficients W and intercept b at which   *)
(* the gradient of the penalised mean log-loss vanishes (up to the         *)
(* solver's tolerance); everything it predicts follows from W and b.       *)
(***************************************************************************)
EXTENDS HistJudge, FiniteSetsExt, SequencesExt
Elems(Y) == UNION {{Y[i][j] : j \in 1..Cols(Y)} : i \in 1..Len(Y)}
Binary(Y) == Elems(Y) \subseteq {R0, R1}
Labels(Y) == SetToSortSeq(Elems(Y), RLt)
\* the targets the model is trained on: given 0/1 columns, or one indicator column per label in increasing order
Target(Y) == IF Binary(Y) THEN Y
             ELSE LET l == Labels(Y)
                  IN [i \in 1..Len(Y) |-> [c \in 1..Len(l) |-> IF Y[i][1] = l[c] THEN R1 ELSE R0]]
Lin(W, b, X) == [i \in 1..Len(X) |-> [c \in 1..Len(b) |-> RAdd(b[c], RDot(X[i], Col(W, c)))]]
Act(z) == IF Len(z) = 1 THEN <<RDiv(R1, RAdd(R1, RExp(RNeg(z[1]))))>>
          ELSE LET m == RMaxSeq(z)
                   e == [c \in 1..Len(z) |-> RExp(RSub(z[c], m))]
                   s == RSum(e)
               IN [c \in 1..Len(z) |-> RDiv(e[c], s)]
Probas(W, b, X) == Map(Lin(W, b, X), Act)
GradW(W, H, T, X, alpha) ==
  LET n == RLen(X)
      D == [i \in 1..Len(X) |-> VSub(H[i], T[i])]
  IN [f \in 1..Len(W) |-> [c \in 1..Cols(T) |-> RDiv(RAdd(RDot(Col(X, f), Col(D, c)), RMul(alpha, W[f][c])), n)]]
GradB(H, T) == [c \in 1..Cols(T) |-> RMean([i \in 1..Len(T) |-> RSub(H[i][c], T[i][c])])]
\* minus the log of the probability given to each row's target
LogLoss(W, b, T, X) ==
  LET Z == Lin(W, b, X)
      row(i) == IF Cols(T) = 1
                THEN RLn(RAdd(R1, RExp(IF T[i][1] = R1 THEN RNeg(Z[i][1]) ELSE Z[i][1])))
                ELSE LET m == RMaxSeq(Z[i])
                     IN RSub(RAdd(m, RLn(RSum([c \in 1..Len(Z[i]) |-> RExp(RSub(Z[i][c], m))]))), RDot(Z[i], T[i]))
  IN RMean([i \in 1..Len(X) |-> row(i)])
Penalty(W, n, alpha) == RDiv(RMul(alpha, RSum(Map(W, LAMBDA w : RDot(w, w)))), RInt(2 * n))
Small(v, eps) == \A i \in 1..Len(v) : RLe(RAbs(v[i]), eps)
\* what an estimator fitted on f = [X, Y, alpha] may show: coefficients, loss
FitOK(f, o) ==
  LET T == Target(f.Y)
      H == Probas(o.W, o.b, f.X)
  IN /\ IsMatrix(o.W, Cols(f.X), Cols(T)) /\ Len(o.b) = Cols(T)
     /\ MatFinite(o.W) /\ AllFinite(o.b)
     /\ \A g \in 1..Len(o.W) : Small(GradW(o.W, H, T, f.X, f.alpha)[g], f.eps)
     /\ Small(GradB(H, T), f.eps)
     /\ Near(o.loss, RAdd(LogLoss(o.W, o.b, T, f.X), Penalty(o.W, Len(f.X), f.alpha)))
\* predictions for Q, as probabilities and as labels
PredOK(f, o, Q) ==
  LET H == Probas(o.W, o.b, Q)
      k == Len(o.b)
      l == Labels(f.Y)
      Best(i) == {c \in 1..k : \A d \in 1..k : RLe(H[i][d], RAdd(H[i][c], Tol))}
  IN /\ NearAll(o.P, H)
     /\ \A i \in 1..Len(Q) : \A c \in 1..k : RLe(R0, o.P[i][c]) /\ RLe(o.P[i][c], R1)
     /\ k > 1 => \A i \in 1..Len(Q) : Near(RSum(o.P[i]), R1)
     /\ IF Binary(f.Y) /\ k = 1
        THEN /\ IsMatrix(o.Y, Len(Q), 1)
             /\ \A i \in 1..Len(Q) : \/ o.Y[i][1] = R1 /\ RLe(RHalf, RAdd(H[i][1], Tol))
                                     \/ o.Y[i][1] = R0 /\ RLe(H[i][1], RAdd(RHalf, Tol))
        ELSE IF Binary(f.Y)
        THEN /\ IsMatrix(o.Y, Len(Q), k)
             /\ \A i \in 1..Len(Q) : \E c \in Best(i) : o.Y[i] = [d \in 1..k |-> IF d = c THEN R1 ELSE R0]
        ELSE /\ IsMatrix(o.Y, Len(Q), 1)
             /\ \A i \in 1..Len(Q) : \E c \in Best(i) : o.Y[i][1] = l[c]
Hits(P, Y) == RDiv(RInt(Cardinality({i \in 1..Len(Y) : P[i] = Y[i]})), RLen(Y))
=============================================================================
