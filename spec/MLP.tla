-------------------------------- MODULE MLP --------------------------------
(***************************************************************************)
(* Multilayer perceptrons: forward pass, regularised losses and their      *)
(* gradients, and training as a transition system. A training state is     *)
(*   [th, m, v, k, n, lr, t, best, noimp, curve, vscores, bestv, bestth,   *)
(*    stop, wild, A, D]                                                    *)
(* where th is the sequence of all parameters (for each layer the          *)
(* intercepts, then the weights by rows), m and v the optimizer's memory,  *)
(* k its step count, n the number of epochs. One transition is one optimizer step on one batch;    *)
(* epochs are sequences of such steps over consecutive row blocks.         *)
(***************************************************************************)
EXTENDS Judge, FiniteSetsExt, SequencesExt
\* ---- parameters
LayerSize(u, l) == (1 + u[l]) * u[l+1]
RECURSIVE Offset(_, _)
Offset(u, l) == IF l = 1 THEN 0 ELSE Offset(u, l - 1) + LayerSize(u, l - 1)
Bias(u, th, l) == SubSeq(th, Offset(u, l) + 1, Offset(u, l) + u[l+1])
Weight(u, th, l) == LET o == Offset(u, l) + u[l+1]
                    IN [i \in 1..u[l] |-> SubSeq(th, o + (i-1) * u[l+1] + 1, o + i * u[l+1])]
RECURSIVE FlattenFrom(_, _, _)
FlattenFrom(W, b, l) == IF l > Len(W) THEN <<>> ELSE b[l] \o FlattenSeq(W[l]) \o FlattenFrom(W, b, l + 1)
Theta(W, b) == FlattenFrom(W, b, 1)
\* which entries of th are weights (penalised), not intercepts
IsWeight(u) == FlattenSeq([l \in 1..(Len(u) - 1) |-> [i \in 1..LayerSize(u, l) |-> i > u[l+1]]])
\* ---- forward
Hidden(act, z) == CASE act = "identity" -> z
                    [] act = "logistic" -> RDiv(R1, RAdd(R1, RExp(RNeg(z))))
                    [] act = "tanh" -> RTanh(z)
                    [] act = "relu" -> RMax(R0, z)
Softmax(z) == LET mx == RMaxSeq(z)
                  e == [c \in 1..Len(z) |-> RExp(RSub(z[c], mx))]
                  s == RSum(e)
              IN [c \in 1..Len(z) |-> RDiv(e[c], s)]
OutAct(out, z) == CASE out = "identity" -> z
                    [] out = "softmax" -> Softmax(z)
                    [] out = "logistic" -> Map(z, LAMBDA v : Hidden("logistic", v))
Pre(u, th, A, l) == LET Z == RMatMul(A, Weight(u, th, l))
                        b == Bias(u, th, l)
                    IN TLCEval([i \in 1..Len(Z) |-> VAdd(Z[i], b)])
\* activations of every layer, the input first, the output last
RECURSIVE Layers(_, _, _, _, _)
Layers(c, u, th, As, l) ==
  LET Z == Pre(u, th, As[l], l)
  IN IF l = Len(u) - 1 THEN Append(As, TLCEval([i \in 1..Len(Z) |-> OutAct(c.out, Z[i])]))
     ELSE Layers(c, u, th, Append(As, TLCEval([i \in 1..Len(Z) |-> Map(Z[i], LAMBDA v : Hidden(c.act, v))])), l + 1)
Forward(c, u, th, X) == Layers(c, u, th, <<X>>, 1)
Output(c, u, th, X) == Last(Forward(c, u, th, X))
\* ---- loss and gradient over a batch
LnP(p) == RLn(RMax(p, "1/1000000000000000000000000000000000000000000"))
RowLoss(c, h, t) == CASE c.out = "identity" -> RDiv(SqDist(h, t), "2")
                      [] c.out = "softmax" -> RSum([j \in 1..Len(h) |-> IF t[j] = R0 THEN R0 ELSE RNeg(RMul(t[j], LnP(h[j])))])
                      [] c.out = "logistic" -> RSum([j \in 1..Len(h) |-> RNeg(LnP(IF t[j] = R1 THEN h[j] ELSE RSub(R1, h[j])))])
Penalty(c, u, th) == LET w == IsWeight(u)
                     IN RMul(RDiv(c.alpha, "2"), RSum([i \in 1..Len(th) |-> IF w[i] THEN RSq(th[i]) ELSE R0]))
LossOf(c, u, th, H, T) == RDiv(RAdd(RSum([i \in 1..Len(T) |-> RowLoss(c, H[i], T[i])]), Penalty(c, u, th)), RLen(T))
Loss(c, u, th, X, T) == LossOf(c, u, th, Output(c, u, th, X), T)
Deriv(act, a) == CASE act = "identity" -> R1
                   [] act = "logistic" -> RMul(a, RSub(R1, a))
                   [] act = "tanh" -> RSub(R1, RSq(a))
                   [] act = "relu" -> IF RLt(R0, a) THEN R1 ELSE R0
LayerGrad(c, u, th, A, D, l) ==
  LET n == RLen(D)
      G == RMatMul(Transpose(A), D)
      W == Weight(u, th, l)
  IN [j \in 1..u[l+1] |-> RDiv(RSum(Col(D, j)), n)] \o FlattenSeq([i \in 1..u[l] |-> [j \in 1..u[l+1] |-> RDiv(RAdd(G[i][j], RMul(c.alpha, W[i][j])), n)]])
RECURSIVE Backward(_, _, _, _, _, _)
Backward(c, u, th, As, D, l) ==
  LET g == TLCEval(LayerGrad(c, u, th, As[l], D, l))
  IN IF l = 1 THEN g
     ELSE LET E == RMatMul(D, Transpose(Weight(u, th, l)))
              P == TLCEval([i \in 1..Len(E) |-> [j \in 1..u[l] |-> RMul(E[i][j], Deriv(c.act, As[l][i][j]))]])
          IN Backward(c, u, th, As, P, l - 1) \o g
GradOf(c, u, th, As, T) == LET H == Last(As) IN Backward(c, u, th, As, TLCEval([i \in 1..Len(T) |-> VSub(H[i], T[i])]), Len(u) - 1)
Grad(c, u, th, X, T) == GradOf(c, u, th, Forward(c, u, th, X), T)
\* ---- one optimizer step on one batch: st' and the batch's loss times its rows
Update(c, st, g) ==
  IF c.solver = "sgd"
  THEN LET v2 == TLCEval([i \in 1..Len(g) |-> RSub(RMul(c.momentum, st.v[i]), RMul(st.lr, g[i]))])
           th2 == TLCEval([i \in 1..Len(g) |-> RAdd(st.th[i], IF c.nesterov THEN RSub(RMul(c.momentum, v2[i]), RMul(st.lr, g[i])) ELSE v2[i])])
       IN [st EXCEPT !.v = v2, !.th = th2, !.k = @ + 1]
  ELSE LET k == st.k + 1
           m2 == TLCEval([i \in 1..Len(g) |-> RAdd(RMul(c.beta1, st.m[i]), RMul(RSub(R1, c.beta1), g[i]))])
           v2 == TLCEval([i \in 1..Len(g) |-> RAdd(RMul(c.beta2, st.v[i]), RMul(RSub(R1, c.beta2), RSq(g[i])))])
           corr(j) == RDiv(RMul(c.lr, RSqrt(RSub(R1, RPow(c.beta2, RInt(j))))), RSub(R1, RPow(c.beta1, RInt(j))))
           lr == corr(k)
           \* listed finding adam-correction: the correction advances with every parameter instead of every step
           rate(i) == IF "adam" \in c.dev THEN corr((k - 1) * Len(g) + i) ELSE lr
           th2 == TLCEval([i \in 1..Len(g) |-> RSub(st.th[i], RDiv(RMul(rate(i), m2[i]), RAdd(RSqrt(v2[i]), c.epsilon)))])
           \* a gradient of rounding size is divided by its own size: nothing is said about what follows
           noise == RLt(c.epsilon, "1/1000000") /\ \E i \in 1..Len(g) : g[i] # R0 /\ RLt(RAbs(g[i]), "1/10000000")
       IN [st EXCEPT !.m = m2, !.v = v2, !.th = th2, !.k = k, !.wild = @ \/ noise]
\* Outputs so extreme that rounding decides what follows: nothing is said about the rest of such a training, but that it
\* stays finite when the outputs are probabilities.
Wild(c, H, T) == \E i \in 1..Len(T) : \E j \in 1..Len(T[i]) :
  IF c.out = "identity" THEN RLt("1000000", RAbs(H[i][j]))
  ELSE RLt(RSub(R1, RAbs(RSub(H[i][j], T[i][j]))), c.sat)
Step(c, u, st, X, T) ==
  LET th == TLCEval([i \in 1..Len(st.th) |-> RMul(st.th[i], RSub(R1, c.decay))])
      As == Forward(c, u, th, X)
  IN [st |-> Update(c, [st EXCEPT !.th = th, !.wild = @ \/ Wild(c, Last(As), T)], GradOf(c, u, th, As, T)), loss |-> RMul(LossOf(c, u, th, Last(As), T), RLen(T))]
\* Listed finding tail-batch: a last batch of fewer rows than the batch size works on buffers of the full size, whose
\* remaining rows hold what the previous batch left. c.dev has "tail" when that is what is to be described;
\* st.A and st.D are the buffers (activations and deltas of each layer after the input).
Stale(new, old) == [i \in 1..Len(old) |-> IF i <= Len(new) THEN new[i] ELSE old[i]]
ActL(c, u, l, Z) == [i \in 1..Len(Z) |-> IF l = Len(u) - 1 THEN OutAct(c.out, Z[i]) ELSE Map(Z[i], LAMBDA v : Hidden(c.act, v))]
RECURSIVE TailForward(_, _, _, _, _, _, _)
TailForward(c, u, th, X, old, As, l) ==
  LET P == RMatMul(IF l = 1 THEN X ELSE As[l-1], Weight(u, th, l))
      S == TLCEval(IF l = 1 THEN Stale(P, old[1]) ELSE P)
      b == Bias(u, th, l)
      A == TLCEval(ActL(c, u, l, TLCEval([i \in 1..Len(S) |-> VAdd(S[i], b)])))
  IN IF l = Len(u) - 1 THEN Append(As, A) ELSE TailForward(c, u, th, X, old, Append(As, A), l + 1)
RECURSIVE TailBackward(_, _, _, _, _, _, _)
TailBackward(c, u, th, X, As, Ds, l) == \* Ds: deltas of layers l.. ; returns [g, Ds]
  LET r == RLen(X)
      D == Ds[1]
      G == RMatMul(Transpose(IF l = 1 THEN X ELSE As[l-1]), IF l = 1 THEN SubSeq(D, 1, Len(X)) ELSE D)
      W == Weight(u, th, l)
      g == TLCEval([j \in 1..u[l+1] |-> RMean(Col(D, j))]
           \o FlattenSeq([i \in 1..u[l] |-> [j \in 1..u[l+1] |-> RDiv(RAdd(G[i][j], RMul(c.alpha, W[i][j])), r)]]))
  IN IF l = 1 THEN [g |-> g, Ds |-> Ds]
     ELSE LET E == RMatMul(D, Transpose(W))
              P == TLCEval([i \in 1..Len(E) |-> [j \in 1..u[l] |-> RMul(E[i][j], Deriv(c.act, As[l-1][i][j]))]])
              n == TailBackward(c, u, th, X, As, <<P>> \o Ds, l - 1)
          IN [g |-> n.g \o g, Ds |-> n.Ds]
TailStep(c, u, st, X, T) ==
  LET th == TLCEval([i \in 1..Len(st.th) |-> RMul(st.th[i], RSub(R1, c.decay))])
      As == TailForward(c, u, th, X, st.A, <<>>, 1)
      H == Last(As)
      D == TLCEval(Stale([i \in 1..Len(T) |-> VSub(H[i], T[i])], Last(st.D)))
      b == TailBackward(c, u, th, X, As, <<D>>, Len(u) - 1)
      loss == RAdd(RDiv(RSum([i \in 1..Len(T) |-> RowLoss(c, H[i], T[i])]), RLen(H)), RDiv(Penalty(c, u, th), RLen(T)))
  IN [st |-> Update(c, [st EXCEPT !.th = th, !.wild = @ \/ Wild(c, H, T), !.A = As, !.D = b.Ds], b.g), loss |-> RMul(loss, RLen(T))]
RECURSIVE Batches(_, _, _, _, _, _, _)
Batches(c, u, st, X, T, from, acc) ==
  IF from > Len(X) \/ st.wild THEN [st |-> st, loss |-> RDiv(acc, RLen(X))]
  ELSE LET to == IF from + c.batch - 1 > Len(X) THEN Len(X) ELSE from + c.batch - 1
           s == TLCEval(IF "tail" \in c.dev THEN TailStep(c, u, st, SubSeq(X, from, to), SubSeq(T, from, to)) ELSE Step(c, u, st, SubSeq(X, from, to), SubSeq(T, from, to)))
       IN Batches(c, u, s.st, X, T, to + 1, TLCEval(RAdd(acc, s.loss)))
\* ---- scores of rows
Hard(c, h) == IF c.out = "identity" THEN h
              ELSE IF Len(h) = 1 THEN <<IF RLt(RHalf, h[1]) THEN R1 ELSE R0>>
              ELSE LET b == CHOOSE j \in 1..Len(h) : h[j] = RMaxSeq(h) IN [j \in 1..Len(h) |-> IF j = b THEN R1 ELSE R0]
R2Col(p, y) == LET mean == RMean(y)
               IN RSub(R1, RDiv(SqDist(p, y), RSum(Map(y, LAMBDA v : RSq(RSub(v, mean))))))
R2(P, Y) == RMean([j \in 1..Cols(Y) |-> R2Col(Col(P, j), Col(Y, j))])
Accuracy(P, Y) == RDiv(RInt(Cardinality({i \in 1..Len(Y) : P[i] = Y[i]})), RLen(Y))
ScoreOf(c, u, th, X, T) == LET H == Output(c, u, th, X)
                               P == [i \in 1..Len(H) |-> Hard(c, H[i])]
                           IN IF c.out = "identity" THEN R2(P, T) ELSE Accuracy(P, T)
\* ---- one epoch over (X, T) with the validation rows (VX, VT), and the stopping rule
Epoch(c, u, st, X, T, VX, VT) ==
  LET e == TLCEval(Batches(c, u, st, X, T, 1, R0))
      s1 == [e.st EXCEPT !.curve = Append(@, e.loss), !.n = @ + 1, !.t = @ + Len(X) + Len(VX)]
      score == IF Len(VX) > 0 THEN ScoreOf(c, u, s1.th, VX, VT) ELSE R0
      worse == IF Len(VX) > 0 THEN RLt(score, RAdd(st.bestv, c.tol)) ELSE RLt(RSub(st.best, c.tol), e.loss)
      s2 == [s1 EXCEPT !.best = RMin(@, e.loss), !.noimp = IF worse THEN @ + 1 ELSE 0,
                       !.vscores = IF Len(VX) > 0 THEN Append(@, score) ELSE @,
                       !.bestth = IF Len(VX) > 0 /\ RLt(st.bestv, score) THEN s1.th ELSE @,
                       !.bestv = IF Len(VX) > 0 THEN RMax(@, score) ELSE @]
      s3 == IF c.solver = "sgd" /\ c.schedule = "invscaling" THEN [s2 EXCEPT !.lr = RDiv(c.lr, RPow(RInt(s2.t + 1), c.powert))] ELSE s2
  IN IF s3.noimp <= c.nochange THEN s3
     ELSE IF c.solver = "sgd" /\ c.schedule = "adaptive" /\ RLt("1/1000000", s3.lr)
     THEN [s3 EXCEPT !.lr = RDiv(@, "5"), !.noimp = 0]
     ELSE [s3 EXCEPT !.stop = TRUE]
RECURSIVE Epochs(_, _, _, _, _, _, _, _)
Epochs(c, u, st, X, T, VX, VT, left) ==
  IF left = 0 \/ st.stop \/ st.wild THEN st ELSE Epochs(c, u, TLCEval(Epoch(c, u, st, X, T, VX, VT)), X, T, VX, VT, left - 1)
Zeros(n) == [i \in 1..n |-> R0]
\* a state from which training starts: fresh optimizer, given parameters
Buffers(c, u) == [l \in 1..(Len(u) - 1) |-> [i \in 1..c.batch |-> Zeros(u[l+1])]]
Fresh(c, u, th) == [A |-> Buffers(c, u), D |-> Buffers(c, u), th |-> th, m |-> Zeros(Len(th)), v |-> Zeros(Len(th)), k |-> 0, n |-> 0, lr |-> c.lr, t |-> 0, best |-> "inf", noimp |-> 0,
                 curve |-> <<>>, vscores |-> <<>>, bestv |-> "-inf", bestth |-> th, stop |-> FALSE, wild |-> FALSE]
\* training continued from parameters th, keeping the record of the losses
Continued(c, u, st, th) == [st EXCEPT !.A = Buffers(c, u), !.D = Buffers(c, u), !.th = th, !.m = Zeros(Len(th)), !.v = Zeros(Len(th)), !.k = 0, !.lr = c.lr, !.bestth = th, !.stop = FALSE]
NVal(c, n) == IF c.early THEN -RFloor(RNeg(RMul(c.valfrac, RInt(n)))) ELSE 0
Train(c, u, st, X, T) ==
  LET n == Len(X)
      k == n - NVal(c, n)
      r == Epochs(c, u, st, SubSeq(X, 1, k), SubSeq(T, 1, k), SubSeq(X, k + 1, n), SubSeq(T, k + 1, n), c.maxiter)
  IN IF c.early THEN [r EXCEPT !.th = r.bestth] ELSE r
\* ---- targets
Elems(Y) == UNION {{Y[i][j] : j \in 1..Cols(Y)} : i \in 1..Len(Y)}
Binary(Y) == Elems(Y) \subseteq {R0, R1}
Labels(Y) == SetToSortSeq(Elems(Y), RLt)
Target(reg, Y) == IF reg \/ Binary(Y) THEN Y
                  ELSE LET l == Labels(Y)
                       IN [i \in 1..Len(Y) |-> [k \in 1..Len(l) |-> IF Y[i][1] = l[k] THEN R1 ELSE R0]]
OutOf(reg, T) == IF reg THEN "identity" ELSE IF Cols(T) > 1 THEN "softmax" ELSE "logistic"
=============================================================================
