----------------------------- MODULE ClfMetrics -----------------------------
(***************************************************************************)
(* Classification metrics. y, p: true and predicted labels (sequences of   *)
(* reals); w: sample weights, <<>> for none. Everything is a ratio of the  *)
(* weighted counts of the pairs (true label, predicted label).             *)
(***************************************************************************)
EXTENDS Judge, SequencesExt
W(w, i) == IF w = <<>> THEN R1 ELSE w[i]
ClassSeq(y, p) == SetToSortSeq({y[i] : i \in 1..Len(y)} \cup {p[i] : i \in 1..Len(p)}, LAMBDA a, b : RLt(a, b))
\* weight of the samples satisfying c
WeightOf(n, w, c(_)) == RSum([i \in 1..n |-> IF c(i) THEN W(w, i) ELSE R0])
Count(y, p, w, a, b) == WeightOf(Len(y), w, LAMBDA i : y[i] = a /\ p[i] = b)
Confusion(y, p, w) == LET C == ClassSeq(y, p) IN [a \in 1..Len(C) |-> [b \in 1..Len(C) |-> Count(y, p, w, C[a], C[b])]]
\* true positives, truly in the class, predicted in the class
Sums(y, p, w, c) == [tp |-> Count(y, p, w, c, c),
                     tr |-> WeightOf(Len(y), w, LAMBDA i : y[i] = c),
                     pr |-> WeightOf(Len(y), w, LAMBDA i : p[i] = c)]
Ratio(a, b) == IF RLt(R0, b) THEN RDiv(a, b) ELSE R0
FB(P, Rc, beta) == LET b2 == RSq(beta) IN Ratio(RMul(RAdd(R1, b2), RMul(P, Rc)), RAdd(RMul(b2, P), Rc))
PRF(s, beta) == LET P == Ratio(s.tp, s.pr)
                    Rc == Ratio(s.tp, s.tr)
                IN << P, Rc, FB(P, Rc, beta) >>
PerClass(y, p, w, beta) == LET C == ClassSeq(y, p) IN [c \in 1..Len(C) |-> PRF(Sums(y, p, w, C[c]), beta)]
Avg(y, p, w, beta, mode) ==
  LET C == ClassSeq(y, p)
      per == PerClass(y, p, w, beta)
      sup == [c \in 1..Len(C) |-> Sums(y, p, w, C[c]).tr]
      all == [tp |-> RSum([c \in 1..Len(C) |-> Sums(y, p, w, C[c]).tp]),
              tr |-> RSum(sup), pr |-> RSum([c \in 1..Len(C) |-> Sums(y, p, w, C[c]).pr])]
  IN CASE mode = "micro" -> PRF(all, beta)
       [] mode = "macro" -> [k \in 1..3 |-> RMean([c \in 1..Len(C) |-> per[c][k]])]
       [] mode = "weighted" -> [k \in 1..3 |-> RDiv(RDot([c \in 1..Len(C) |-> per[c][k]], sup), RSum(sup))]
Accuracy(Y, P, w, norm) == LET hit == WeightOf(Len(Y), w, LAMBDA i : Y[i] = P[i])
                           IN IF norm THEN RDiv(hit, WeightOf(Len(Y), w, LAMBDA i : TRUE)) ELSE hit
=============================================================================
