-------------------------------- MODULE KNN --------------------------------
(***************************************************************************)
(* Predictors over nearest neighbours. Points at the same distance as the  *)
(* k-th neighbour may be chosen freely: a prediction is right when some    *)
(* admissible neighbourhood gives it for every output.                     *)
(***************************************************************************)
EXTENDS Neighbors
\* smallest d such that at least k training points are within d
Kth(D, k) == SortSeq(D, RLt)[k]
Hoods(T, q, p, k) ==
  LET D == TLCEval(AllDistP(T, q, p))
      d == Kth(D, k)
      must == {j \in 1..Len(T) : Below(D[j], d)}
      may == {j \in 1..Len(T) : j \notin must /\ ~Below(d, D[j])}
  IN {must \cup s : s \in kSubset(k - Cardinality(must), may)}
Weigh(T, q, p, w, j) == CASE w = "distance" -> RDiv(R1, RAdd("1/1000000000000000", Dist(T[j], q, p)))
                          [] w = "inverse1" -> RDiv(R1, RAdd(R1, Dist(T[j], q, p)))
                          [] OTHER -> R1
SumIn(S, f(_)) == FoldSet(LAMBDA j, a : RAdd(a, f(j)), R0, S)
Vote(s, q, hood, o, c) == SumIn({j \in hood : s.Y[j][o] = c}, LAMBDA j : Weigh(s.T, q, s.cfg.p, s.cfg.w, j))
Labels(s, o) == {s.Y[j][o] : j \in 1..Len(s.Y)}
ClassOK(s, q, pred) ==
  \E h \in Hoods(s.T, q, s.cfg.p, s.cfg.k) : \A o \in 1..Len(pred) :
     /\ pred[o] \in Labels(s, o)
     /\ \A c \in Labels(s, o) : ~Below(Vote(s, q, h, o, pred[o]), Vote(s, q, h, o, c))
SortedLabels(s) == SetToSortSeq(Labels(s, 1), LAMBDA a, b : RLt(a, b))
ProbaOK(s, q, pr) ==
  LET C == SortedLabels(s)
  IN /\ Len(pr) = Len(C) /\ Near(RSum(pr), R1)
     /\ \E h \in Hoods(s.T, q, s.cfg.p, s.cfg.k) :
           LET total == SumIn(h, LAMBDA j : Weigh(s.T, q, s.cfg.p, s.cfg.w, j))
           IN \A c \in 1..Len(C) : Near(pr[c], RDiv(Vote(s, q, h, 1, C[c]), total))
MeanOK(s, q, pred) ==
  \E h \in Hoods(s.T, q, s.cfg.p, s.cfg.k) :
     LET total == SumIn(h, LAMBDA j : Weigh(s.T, q, s.cfg.p, s.cfg.w, j))
     IN \A o \in 1..Len(pred) : Near(pred[o], RDiv(SumIn(h, LAMBDA j : RMul(s.Y[j][o], Weigh(s.T, q, s.cfg.p, s.cfg.w, j))), total))
(* nearest centroid *)
RowsOf(s, c) == {j \in 1..Len(s.Y) : s.Y[j][1] = c}
ColMeans(s, c) == LET R == RowsOf(s, c) IN [f \in 1..Cols(s.T) |-> RDiv(SumIn(R, LAMBDA j : s.T[j][f]), RInt(Cardinality(R)))]
\* v is a median of the values of feature f among the rows of class c
IsMedian(s, c, f, v) == LET R == RowsOf(s, c)
                            n == Cardinality(R)
                        IN /\ 2 * Cardinality({j \in R : RLt(s.T[j][f], v) /\ ~Near(s.T[j][f], v)}) <= n
                           /\ 2 * Cardinality({j \in R : RLt(v, s.T[j][f]) /\ ~Near(s.T[j][f], v)}) <= n
CentroidsOK(s, C, labels, counts) ==
  /\ labels = SortedLabels(s)
  /\ counts = [c \in 1..Len(labels) |-> Cardinality(RowsOf(s, labels[c]))]
  /\ IsMatrix(C, Len(labels), Cols(s.T))
  /\ \A c \in 1..Len(labels) : IF s.cfg.p = "1" THEN \A f \in 1..Cols(s.T) : IsMedian(s, labels[c], f, C[c][f])
                               ELSE NearAll(C[c], ColMeans(s, labels[c]))
NearestOK(s, C, q, pred) ==
  LET labels == SortedLabels(s)
      D == AllDistP(C, q, s.cfg.p)
  IN \E c \in 1..Len(labels) : pred = << labels[c] >> /\ \A e \in 1..Len(labels) : ~Below(D[e], D[c])
Hits(P, Y) == RDiv(RInt(Cardinality({i \in 1..Len(Y) : P[i] = Y[i]})), RLen(Y))
R2Of(P, Y) == RMean([o \in 1..Cols(Y) |->
  LET m == RMean(Col(Y, o)) IN RSub(R1, RDiv(SqDist(Col(P, o), Col(Y, o)), RSum([i \in 1..Len(Y) |-> RSq(RSub(Y[i][o], m))])))])
=============================================================================
