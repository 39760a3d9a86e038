------------------------------- MODULE LinReg -------------------------------
(***************************************************************************)
(* Linear models. A fit works on the prepared data: with an intercept the  *)
(* columns are centred (and divided by their length when normalizing), so  *)
(* the solution is stated in the prepared coefficients theta = w * scale.  *)
(*  least squares   Xs'(Xs theta - Yc) + alpha theta = 0                   *)
(*  elastic net     duality gap of the penalised objective below tolerance *)
(*  Bayesian ridge  the evidence iteration on the two precisions           *)
(***************************************************************************)
EXTENDS RegMetrics, TLC
Means(M) == [j \in 1..Cols(M) |-> RMean(Col(M, j))]
Centre(M, m) == [i \in 1..Len(M) |-> VSub(M[i], m)]
ZeroV(n) == [j \in 1..n |-> R0]
ZeroM(r, c) == [i \in 1..r |-> ZeroV(c)]
Prep(in) ==
  LET xm == TLCEval(IF in.icpt THEN Means(in.X) ELSE ZeroV(Cols(in.X)))
      ym == TLCEval(IF in.icpt THEN Means(in.Y) ELSE ZeroV(Cols(in.Y)))
      Xc == TLCEval(Centre(in.X, xm))
      ns == TLCEval([j \in 1..Cols(Xc) |-> Norm2(Col(Xc, j))])
      sc == TLCEval([j \in 1..Cols(Xc) |-> IF in.icpt /\ in.norm /\ ~ REq(ns[j], R0) THEN ns[j] ELSE R1])
  IN TLCEval([X |-> [i \in 1..Len(Xc) |-> [j \in 1..Len(sc) |-> RDiv(Xc[i][j], sc[j])]], Y |-> Centre(in.Y, ym), xm |-> xm, ym |-> ym, sc |-> sc])
Prepared(w, p) == TLCEval([j \in 1..Len(w) |-> VScale(p.sc[j], w[j])])
Residual(X, th, Y) == LET P == RMatMul(X, th) IN TLCEval([i \in 1..Len(Y) |-> VSub(Y[i], P[i])])
\* size against which the components of the gradient are compared (an iterative
\* solver stops on the size of the whole gradient, so columns share part of it)
GradScale(X, th, Y, j, o) ==
  RAdd("1/10", RMul(RAdd(Norm2(Col(X, j)), RMul("1/100", RMaxSeq([k \in 1..Cols(X) |-> Norm2(Col(X, k))]))), RAdd(Norm2(Col(Y, o)), RSum([k \in 1..Len(th) |-> RMul(Norm2(Col(X, k)), RAbs(th[k][o]))]))))
Stationary(X, th, Y, alpha, tol) ==
  LET R == Residual(X, th, Y)
  IN \A j \in 1..Len(th) : \A o \in 1..Len(th[1]) :
       RLe(RAbs(RSub(RMul(alpha, th[j][o]), RDot(Col(X, j), Col(R, o)))), RMul(tol, GradScale(X, th, Y, j, o)))
Affine(Q, w, b) == LET P == RMatMul(Q, w) IN [i \in 1..Len(Q) |-> VAdd(P[i], b)]
\* intercept and predictions belong to the coefficients
ModelOK(in, out, p) ==
  /\ IsMatrix(out.coef, Cols(in.X), Cols(in.Y)) /\ MatFinite(out.coef)
  /\ IsMatrix(out.b, 1, Cols(in.Y))
  /\ \A o \in 1..Cols(in.Y) : IF in.icpt THEN Near(out.b[1][o], RSub(p.ym[o], RDot(p.xm, Col(out.coef, o)))) ELSE REq(out.b[1][o], R0)
  /\ NearAll(out.P, Affine(in.Q, out.coef, out.b[1]))
  /\ Near(out.score, RMean(R2(in.SY, Affine(in.Q, out.coef, out.b[1]), <<>>)))
\* ---- elastic net
NormsOf(th) == [j \in 1..Len(th) |-> Norm2(th[j])]
Pos(in, v) == IF in.positive THEN Map(v, LAMBDA x : RMax(x, R0)) ELSE v
SumSq(M) == RSum([i \in 1..Len(M) |-> RDot(M[i], M[i])])
Inner(A, C) == RSum([i \in 1..Len(A) |-> RDot(A[i], C[i])])
L1(in, n) == RMul(in.alpha, RMul(in.l1, RInt(n)))
L2(in, n) == RMul(in.alpha, RMul(RSub(R1, in.l1), RInt(n)))
\* gradient of the smooth part, negated
Force(in, X, th, R) == [j \in 1..Len(th) |-> [o \in 1..Len(th[1]) |-> RSub(RDot(Col(X, j), Col(R, o)), RMul(L2(in, Len(X)), th[j][o]))]]
Gap(in, X, th, Y) ==
  LET R == Residual(X, th, Y)
      l1 == L1(in, Len(X))
      l2 == L2(in, Len(X))
      f == Force(in, X, th, R)
      dn == RMaxSeq(NormsOf([j \in 1..Len(th) |-> Pos(in, f[j])]))
      c == IF RLt(l1, dn) THEN RDiv(l1, dn) ELSE R1
      r2 == SumSq(R)
      c2 == RAdd(R1, RSq(c))
  IN RAdd(RMul(RHalf, RMul(c2, r2)),
          RAdd(RSub(RMul(l1, RSum(NormsOf(th))), RMul(c, Inner(R, Y))), RMul(RHalf, RMul(l2, RMul(c2, SumSq(th))))))
KKT(in, X, th, Y, tol) ==
  LET R == Residual(X, th, Y)
      f == Force(in, X, th, R)
      l1 == L1(in, Len(X))
      sz(j) == RMul(tol, RAdd(l1, RAdd("1/1000000", RMul(Norm2(Col(X, j)), RSqrt(SumSq(Y))))))
  IN \A j \in 1..Len(th) :
       LET n == Norm2(th[j])
       IN IF REq(n, R0) THEN RLe(Norm2(Pos(in, f[j])), RAdd(l1, sz(j)))
          ELSE \A o \in 1..Len(th[j]) :
                 LET d == RSub(f[j][o], RMul(l1, RDiv(th[j][o], n)))
                 IN /\ RLe(d, sz(j))
                    /\ (in.positive /\ REq(th[j][o], R0)) \/ RLe(RNeg(d), sz(j))
Sign(in, th) == in.positive => \A j \in 1..Len(th) : \A o \in 1..Len(th[j]) : RLe(R0, th[j][o])
\* one solved problem: reported gap is the gap, it is below the tolerance unless out of iterations
Solved(in, X, th, Y, gap, eps, iters) ==
  LET own == Gap(in, X, th, Y)
      yy == SumSq(Y)
      slack == RMul("1/100000000000", RAdd(R1, yy))
  IN /\ Sign(in, th)
     /\ RLt(R0, in.l1) => RLe(RAbs(RSub(gap, own)), slack)
     /\ iters >= 1 /\ iters <= in.maxiter
     /\ (iters < in.maxiter \/ (in.ample /\ RLt(R0, in.l1))) => RLe(gap, RMul(in.tol, yy))
     /\ eps = "" \/ Near(eps, RMul(in.tol, yy))
     /\ in.ample => KKT(in, X, th, Y, RSqrt(RMul("100", in.tol)))
\* ---- Bayesian ridge with one to three features
Minor(M, i, j) == LET idx(k, d) == IF k < d THEN k ELSE k + 1 IN [a \in 1..(Len(M) - 1) |-> [c \in 1..(Len(M) - 1) |-> M[idx(a, i)][idx(c, j)]]]
Alt(i, j, v) == IF ((i + j) % 2) = 0 THEN v ELSE RNeg(v)
RECURSIVE Det(_)
Det(M) == IF Len(M) = 0 THEN R1 ELSE RSum([j \in 1..Len(M) |-> Alt(1, j, RMul(M[1][j], Det(Minor(M, 1, j))))])
Inverse(M) == LET d == Det(M) IN [i \in 1..Len(M) |-> [j \in 1..Len(M) |-> RDiv(Alt(i, j, Det(Minor(M, j, i))), d)]]
Gram(X) == RMatMul(Transpose(X), X)
Shifted(G, k) == [i \in 1..Len(G) |-> [j \in 1..Len(G) |-> IF i = j THEN RAdd(G[i][j], k) ELSE G[i][j]]]
DiagSum(M) == RSum([i \in 1..Len(M) |-> M[i][i]])
BStep(in, X, G, XtY, Y, a, l) ==
  LET k == RDiv(l, a)
      M == Inverse(Shifted(G, k))
      w == RMatMul(M, XtY)
      gam == RSub(RInt(Len(G)), RMul(k, DiagSum(M)))
      rss == SumSq(Residual(X, w, Y))
  IN [w |-> w, lam |-> RDiv(RAdd(gam, RMul("2", in.l1)), RAdd(SumSq(w), RMul("2", in.l2))),
      al |-> RDiv(RAdd(RSub(RInt(Len(X)), gam), RMul("2", in.a1)), RAdd(rss, RMul("2", in.a2)))]
L1Diff(A, C) == RSum([i \in 1..Len(A) |-> RSum([j \in 1..Len(A[i]) |-> RAbs(RSub(A[i][j], C[i][j]))])])
RECURSIVE BLoop(_, _, _, _, _, _, _, _, _)
BLoop(in, X, G, XtY, Y, a, l, old, it) ==
  LET s == BStep(in, X, G, XtY, Y, a, l)
  IN IF it >= in.niter \/ (it > 1 /\ RLt(L1Diff(old, s.w), in.tol)) THEN [s EXCEPT !.w = s.w] @@ [used |-> l]
     ELSE BLoop(in, X, G, XtY, Y, s.al, s.lam, s.w, it + 1)
Bayes(in, p) ==
  LET X == p.X
      Y == p.Y
  IN BLoop(in, X, Gram(X), RMatMul(Transpose(X), Y), Y, RDiv(RInt(Len(Y) * Cols(Y)), SumSq(Y)), R1, ZeroM(Cols(X), Cols(Y)), 1)
Loose(a, b) == RClose(a, b, "1/100000")
BayesOK(in, out, p) ==
  LET f == Bayes(in, p)
      S == Inverse(Shifted(Gram(p.X), RDiv(f.lam, f.al)))
      Sig == [i \in 1..Len(S) |-> VScale(RDiv(R1, f.al), S[i])]
  IN /\ RCloseAll(Prepared(out.coef, p), f.w, "1/100000")
     /\ Loose(RDiv(out.alpha, f.al), R1)
     /\ Loose(RDiv(out.lambda, f.lam), R1) \/ Loose(RDiv(out.lambda, f.used), R1)
     /\ RCloseAll([i \in 1..Len(S) |-> VScale(f.al, out.sigma[i])], S, "1/100000")
     /\ (in.norm \/ ~ in.icpt) =>
          \A i \in 1..Len(in.Q) :
            LET x == [j \in 1..Len(p.sc) |-> RDiv(RSub(in.Q[i][j], IF in.norm THEN p.xm[j] ELSE R0), p.sc[j])]
            IN Loose(out.std[i][1], RSqrt(RAdd(RDiv(R1, out.alpha), RDot(x, MatVec(out.sigma, x)))))
=============================================================================
