------------------------------- MODULE Interp -------------------------------
(***************************************************************************)
(* Interpolators as functions: piecewise linear (missing values, nan, are  *)
(* bridged), the natural cubic spline (exact solution of its tridiagonal   *)
(* system), and bilinear interpolation over lines of constant x.           *)
(***************************************************************************)
EXTENDS Judge, SequencesExt
\* points <<x, y>> in increasing x
Points(x, y) == SortSeq([i \in 1..Len(x) |-> << x[i], y[i] >>], LAMBDA a, b : RLt(a[1], b[1]))
Line(a, b, q) == RAdd(a[2], RMul(RDiv(RSub(q, a[1]), RSub(b[1], a[1])), RSub(b[2], a[2])))
\* index of the segment that serves q: the end segments extend outwards
Seg(pts, q) == CHOOSE k \in 1..(Len(pts) - 1) : (k = 1 \/ RLt(pts[k][1], q)) /\ (k = Len(pts) - 1 \/ RLe(q, pts[k+1][1]))
Known(pts) == SelectSeq(pts, LAMBDA p : p[2] # "nan")
Linear(x, y, q) == LET pts == Known(Points(x, y)) k == Seg(pts, q) IN Line(pts[k], pts[k+1], q)
\* ---- natural cubic spline: slopes k solve the tridiagonal system a k[i-1] + b k[i] + c k[i+1] = d
Inv(pts, i) == RDiv(R1, RSub(pts[i+1][1], pts[i][1]))                     \* 1/h of segment i
Rise(pts, i) == RMul(RSq(Inv(pts, i)), RSub(pts[i+1][2], pts[i][2]))
Left(pts, i) == IF i = 1 THEN R0 ELSE Inv(pts, i - 1)
Right(pts, i) == IF i = Len(pts) THEN R0 ELSE Inv(pts, i)
Mid(pts, i) == RMul("2", RAdd(Left(pts, i), Right(pts, i)))
Rhs(pts, i) == RMul("3", RAdd(IF i = 1 THEN R0 ELSE Rise(pts, i - 1), IF i = Len(pts) THEN R0 ELSE Rise(pts, i)))
RECURSIVE Forward(_, _, _)  \* forward elimination: sequence of <<c', d'>>
Forward(pts, i, acc) ==
  IF i > Len(pts) THEN acc
  ELSE LET den == IF i = 1 THEN Mid(pts, 1) ELSE RSub(Mid(pts, i), RMul(Left(pts, i), acc[i-1][1]))
           num == IF i = 1 THEN Rhs(pts, 1) ELSE RSub(Rhs(pts, i), RMul(Left(pts, i), acc[i-1][2]))
       IN Forward(pts, i + 1, Append(acc, << RDiv(Right(pts, i), den), RDiv(num, den) >>))
RECURSIVE Backward(_, _, _)
Backward(f, i, acc) == IF i = 0 THEN acc ELSE Backward(f, i - 1, << IF i = Len(f) THEN f[i][2] ELSE RSub(f[i][2], RMul(f[i][1], acc[1])) >> \o acc)
Slopes(pts) == LET f == Forward(pts, 1, <<>>) IN Backward(f, Len(f), <<>>)
Hermite(pts, k, i, q) ==
  LET h == RSub(pts[i+1][1], pts[i][1])
      t == RDiv(RSub(q, pts[i][1]), h)
      u == RSub(R1, t)
      dy == RSub(pts[i+1][2], pts[i][2])
      a == RSub(RMul(k[i], h), dy)
      b == RSub(dy, RMul(k[i+1], h))
  IN RAdd(RAdd(RMul(u, pts[i][2]), RMul(t, pts[i+1][2])), RMul(RMul(t, u), RAdd(RMul(a, u), RMul(b, t))))
\* ---- bilinear
Xs(x) == SetToSortSeq({x[i] : i \in 1..Len(x)}, RLt)
LineAt(x, y, z, v) == LET I == SelectSeq([i \in 1..Len(x) |-> i], LAMBDA i : x[i] = v) IN [y |-> [k \in 1..Len(I) |-> y[I[k]]], z |-> [k \in 1..Len(I) |-> z[I[k]]]]
Bilinear(x, y, z, qx, qy) ==
  LET xs == Xs(x)
      vs == [k \in 1..Len(xs) |-> << xs[k], LET l == LineAt(x, y, z, xs[k]) IN Linear(l.y, l.z, qy) >>]
      k == Seg(vs, qx)
  IN Line(vs[k], vs[k+1], qx)
=============================================================================
