-------------------------- MODULE ClfMetricsTrace --------------------------
EXTENDS ClfMetrics
AcceptRecord(r) ==
  LET y == Col(r.in.Y, 1)
      p == Col(r.in.P, 1)
      w == r.in.w
  IN CASE r.op = "clf" ->
         /\ r.out.dims = << Len(ClassSeq(y, p)), Len(ClassSeq(y, p)) >>
         /\ NearAll(r.out.cm, Confusion(y, p, w))
         /\ Near(r.out.acc, Accuracy(r.in.Y, r.in.P, w, TRUE))
         /\ Near(r.out.count, Accuracy(r.in.Y, r.in.P, w, FALSE))
         /\ Len(r.out.per) = Len(ClassSeq(y, p))
         /\ \A c \in 1..Len(r.out.per) :
               /\ NearAll(SubSeq(r.out.per[c], 1, 3), PerClass(y, p, w, r.in.beta)[c])
               /\ Near(r.out.per[c][4], Sums(y, p, w, ClassSeq(y, p)[c]).tr)
         /\ \A m \in {"micro", "macro", "weighted"} :
               /\ NearAll(r.out.avg[m], Avg(y, p, w, r.in.beta, m))
               \* the single-score functions
               /\ LET e == Avg(y, p, w, R1, m)
                  IN NearAll(r.out.single[m], << e[1], e[2], e[3], Avg(y, p, w, r.in.beta, m)[3] >>)
=============================================================================
