--------------------------- MODULE NeighborsTrace ---------------------------
EXTENDS Neighbors
(* A history of one searcher: fits (the training set is then the last one) and queries. *)
TheInit(in) == [p |-> in.p, T |-> <<>>]
TheNext(s, op) == IF op.o = "fit" THEN [s EXCEPT !.T = op.X] ELSE s
GraphRow(row, i, op, ds, is) ==
  LET val(j) == IF \E a \in 1..Len(is) : Index(is[a]) = j
                THEN IF j = i /\ ~op.self THEN R0
                     ELSE IF op.mode = "connectivity" THEN R1 ELSE ds[CHOOSE a \in 1..Len(is) : Index(is[a]) = j]
                ELSE R0
  IN \A j \in 1..Len(row) : REq(row[j], val(j))
\* the rectangle [lo,hi] and a point or rectangle: per-axis smallest and largest gaps
Gap(lo, hi, a, b) == RMax(R0, RMax(RSub(lo, b), RSub(a, hi)))
Reach(lo, hi, a, b) == RMax(RSub(hi, a), RSub(b, lo))
VNorm(v, p) == Unpow(DistP(v, [i \in 1..Len(v) |-> R0], p), p)
RECURSIVE Product(_, _)
Product(v, i) == IF i > Len(v) THEN R1 ELSE RMul(v[i], Product(v, i + 1))
Volume(lo, hi) == Product([i \in 1..Len(lo) |-> RSub(hi[i], lo[i])], 1)
Rect(op, r) ==
  LET n == Len(op.lo)
  IN /\ Near(r.minp, VNorm([i \in 1..n |-> Gap(op.lo[i], op.hi[i], op.x[i], op.x[i])], op.p))
     /\ Near(r.maxp, VNorm([i \in 1..n |-> Reach(op.lo[i], op.hi[i], op.x[i], op.x[i])], op.p))
     /\ Near(r.minr, VNorm([i \in 1..n |-> Gap(op.lo[i], op.hi[i], op.lo2[i], op.hi2[i])], op.p))
     /\ Near(r.maxr, VNorm([i \in 1..n |-> Reach(op.lo[i], op.hi[i], op.lo2[i], op.hi2[i])], op.p))
     /\ Near(r.vol, Volume(op.lo, op.hi))
     /\ r.less = << op.lo, [op.hi EXCEPT ![op.d] = op.split] >>
     /\ r.greater = << [op.lo EXCEPT ![op.d] = op.split], op.hi >>
TheOK(s, op, r) ==
  CASE op.o = "fit" -> r.ok
    [] op.o = "knn" ->
         /\ Len(r.d) = Len(op.Q) /\ Len(r.i) = Len(op.Q)
         /\ \A i \in 1..Len(op.Q) : ValidKNN(s.T, op.Q[i], s.p, op.k, r.d[i], r.i[i])
    [] op.o = "graph" ->
         /\ IsMatrix(r.G, Len(op.Q), Len(s.T))
         /\ \A i \in 1..Len(op.Q) : ValidKNN(s.T, op.Q[i], s.p, op.k, r.d[i], r.i[i]) /\ GraphRow(r.G[i], i, op, r.d[i], r.i[i])
    [] op.o = "radius" ->
         /\ Len(r.d) = Len(op.Q) /\ Len(r.i) = Len(op.Q)
         /\ \A i \in 1..Len(op.Q) : ValidRadius(s.T, op.Q[i], s.p, op.rad, op.exact, r.d[i], r.i[i])
    [] op.o = "tree" ->
         /\ Len(r.d) = Len(op.Q) /\ Len(r.i) = Len(op.Q)
         /\ \A i \in 1..Len(op.Q) : ValidTreeQuery(s.T, op.Q[i], s.p, op.k, op.eps, op.bound, r.d[i], r.i[i])
    [] op.o = "dist" -> Near(r.mink, Dist(op.a, op.b, s.p)) /\ Near(r.eucl, Dist(op.a, op.b, "2"))
                        /\ Near(r.minkp, DistP(op.a, op.b, s.p))
                        /\ Len(r.all) = 4 /\ \A i \in 1..4 :
                             LET e == r.all[i] IN \A j \in 1..2 : /\ Near(e[j], Dist(op.a, op.b, s.p)) /\ Near(e[j+2], Dist(op.a, op.b, "2"))
                                                                    /\ Near(e[j+4], DistP(op.a, op.b, s.p))
    [] op.o = "rect" -> Rect(op, r)
=============================================================================
