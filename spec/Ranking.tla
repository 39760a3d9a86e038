------------------------------ MODULE Ranking ------------------------------
(***************************************************************************)
(* Ranking curves of labels y (pos is the positive label) under scores s   *)
(* with weights w (<<>> for none).                                         *)
(***************************************************************************)
EXTENDS Judge, SequencesExt
W(w, i) == IF w = <<>> THEN R1 ELSE w[i]
Thresholds(s) == SetToSortSeq({s[i] : i \in 1..Len(s)}, LAMBDA a, b : RLt(b, a))
Weight(n, w, c(_)) == RSum([i \in 1..n |-> IF c(i) THEN W(w, i) ELSE R0])
TP(y, s, pos, w, t) == Weight(Len(y), w, LAMBDA i : y[i] = pos /\ RLe(t, s[i]))
FP(y, s, pos, w, t) == Weight(Len(y), w, LAMBDA i : y[i] # pos /\ RLe(t, s[i]))
NPos(y, pos, w) == Weight(Len(y), w, LAMBDA i : y[i] = pos)
NNeg(y, pos, w) == Weight(Len(y), w, LAMBDA i : y[i] # pos)
\* one point per distinct score, from the highest; a point (0,0) in front unless the first already has no false positive
ROC(y, s, pos, w) ==
  LET T == Thresholds(s)
      pts == [k \in 1..Len(T) |-> << RDiv(FP(y, s, pos, w, T[k]), NNeg(y, pos, w)), RDiv(TP(y, s, pos, w, T[k]), NPos(y, pos, w)), T[k] >>]
  IN IF REq(pts[1][1], R0) THEN pts ELSE << << R0, R0, RAdd(T[1], R1) >> >> \o pts
\* from the lowest threshold that is needed for full recall; (1,0) at the end
FullRecall(y, s, pos, w) == LET T == Thresholds(s) IN
  CHOOSE k \in 1..Len(T) : REq(TP(y, s, pos, w, T[k]), NPos(y, pos, w)) /\ (k = 1 \/ ~REq(TP(y, s, pos, w, T[k - 1]), NPos(y, pos, w)))
PR(y, s, pos, w) ==
  LET T == Thresholds(s)
      P(k) == RDiv(TP(y, s, pos, w, T[k]), RAdd(TP(y, s, pos, w, T[k]), FP(y, s, pos, w, T[k])))
      Rc(k) == RDiv(TP(y, s, pos, w, T[k]), NPos(y, pos, w))
      L == FullRecall(y, s, pos, w)
  IN [prec |-> [k \in 1..(L + 1) |-> IF k = L + 1 THEN R1 ELSE P(L + 1 - k)],
      rec |-> [k \in 1..(L + 1) |-> IF k = L + 1 THEN R0 ELSE Rc(L + 1 - k)],
      th |-> [k \in 1..L |-> T[L + 1 - k]]]
\* the probability that a positive outranks a negative, ties one half
AUCOf(y, s, pos, w) ==
  LET n == Len(y)
      win(i, j) == IF RLt(s[j], s[i]) THEN R1 ELSE IF s[i] = s[j] THEN RHalf ELSE R0
  IN RDiv(RSum([i \in 1..n |-> IF y[i] # pos THEN R0 ELSE RMul(W(w, i), RSum([j \in 1..n |-> IF y[j] = pos THEN R0 ELSE RMul(W(w, j), win(i, j))]))]),
          RMul(NPos(y, pos, w), NNeg(y, pos, w)))
\* average precision: the precision at each threshold weighted by the gain of recall
APOf(y, s, pos, w) ==
  LET T == Thresholds(s)
      tp(k) == IF k = 0 THEN R0 ELSE TP(y, s, pos, w, T[k])
  IN RSum([k \in 1..Len(T) |-> LET P == RDiv(tp(k), RAdd(tp(k), FP(y, s, pos, w, T[k])))
                              IN RMul(P, RDiv(RSub(tp(k), tp(k - 1)), NPos(y, pos, w)))])
\* averages over an indicator matrix Y with scores S
Flat(M) == FlattenSeq(M)
AverageOf(M(_, _, _, _), Y, S, w, mode) ==
  LET d == Cols(Y)
      one(j) == M(Col(Y, j), Col(S, j), R1, w)
  IN CASE d = 1 -> one(1)
       [] mode = "micro" -> M(Flat(Y), Flat(S), R1, IF w = <<>> THEN w ELSE Flat([i \in 1..Len(Y) |-> [j \in 1..d |-> w[i]]]))
       [] mode = "weighted" -> LET n == [j \in 1..d |-> NPos(Col(Y, j), R1, w)] IN RDiv(RDot(n, [j \in 1..d |-> one(j)]), RSum(n))
       [] mode = "samples" -> RDiv(RSum([i \in 1..Len(Y) |-> RMul(W(w, i), M(Y[i], S[i], R1, <<>>))]), RSum([i \in 1..Len(Y) |-> W(w, i)]))
       [] OTHER -> RMean([j \in 1..d |-> one(j)])
=============================================================================
