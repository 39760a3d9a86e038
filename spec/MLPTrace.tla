------------------------------ MODULE MLPTrace ------------------------------
(* A record is a history of calls on networks; est maps each to what it was last fitted on and the state training left. *)
EXTENDS MLP
Cfg(in, op) == LET T == Target(in.reg, op.Y)
                   n == Len(op.X)
               IN [op.c EXCEPT !.dev = {}, !.sat = in.sat, !.out = OutOf(in.reg, T),
                               !.batch = IF op.c.batch <= 0 THEN (IF n > 200 THEN 200 ELSE n) ELSE IF op.c.batch > n THEN n ELSE op.c.batch]
Units(op, T) == <<Cols(op.X)>> \o op.c.hidden \o <<Cols(T)>>
ShapeOK(u, o) == /\ Len(o.W) = Len(u) - 1 /\ Len(o.b) = Len(u) - 1
                 /\ \A l \in 1..(Len(u) - 1) : IsMatrix(o.W[l], u[l], u[l+1]) /\ Len(o.b[l]) = u[l+1]
Orders(c, n) == IF c.shuffle /\ (c.batch < n \/ c.early) THEN SetToSeq({p \in [1..n -> 1..n] : IsInjective(p)}) ELSE <<[i \in 1..n |-> i]>>
Permuted(S, p) == TLCEval([i \in 1..Len(S) |-> S[p[i]]])
Seen(in, r, sim) ==
  /\ RCloseAll(Theta(r.W, r.b), sim.th, in.eps)
  /\ RCloseAll(r.curve, sim.curve, in.eps)
  /\ RClose(r.loss, Last(sim.curve), in.eps)
  /\ r.niter = sim.n
  /\ RCloseAll(r.vscores, sim.vscores, in.eps)
SmallG(g, e) == \A i \in 1..Len(g) : RLe(RAbs(g[i]), e)
LbfgsOK(in, c, u, th0, r, op, T) ==
  LET th == Theta(r.W, r.b)
      extreme(t) == Wild(c, Output(c, u, t, op.X), T)
  IN /\ AllFinite(th)
     /\ \/ extreme(th0) \/ extreme(th)
        \/ /\ RClose(r.loss, Loss(c, u, th, op.X, T), in.eps)
           /\ RLe(r.loss, RAdd(Loss(c, u, th0, op.X, T), in.eps))
           /\ RLe(r.best, RAdd(r.loss, in.eps))
           /\ Len(u) = 2 /\ op.conv => SmallG(Grad(c, u, th, op.X, T), "1/10000")
\* Deviations that are listed findings and may explain a fit (none when the record is a probe for them)
Partial(c, n) == LET k == n - NVal(c, n) IN c.batch < n /\ (k % c.batch) # 0
Devs(in, c, n) == IF in.strict THEN <<{}>>
                  ELSE LET a == IF c.solver = "adam" THEN {"adam"} ELSE {}
                           t == IF Partial(c, n) \/ c.batch > n - NVal(c, n) THEN {"tail"} ELSE {}
                       IN SetToSeq(SUBSET (a \cup t))
RECURSIVE Explained(_, _, _, _, _, _, _, _, _)
\* the state training ended in: that of the first order of the rows which explains what was seen (none: <<>>)
RECURSIVE FirstOf(_, _, _, _, _, _, _, _, _)
FirstOf(in, c, u, start, op, T, r, os, k) ==
  IF k > Len(os) THEN <<>>
  ELSE LET sim == TLCEval(Train(c, u, start, Permuted(op.X, os[k]), Permuted(T, os[k])))
       IN IF sim.wild \/ Seen(in, r, sim) THEN <<sim>> ELSE FirstOf(in, c, u, start, op, T, r, os, k + 1)
Explained(in, c, u, start, op, T, r, ds, k) ==
  IF k > Len(ds) THEN <<>>
  ELSE LET s == FirstOf(in, [c EXCEPT !.dev = ds[k]], u, start, op, T, r, Orders(c, Len(op.X)), 1)
       IN IF s # <<>> THEN s ELSE Explained(in, c, u, start, op, T, r, ds, k + 1)
PredOK(in, e, Q, r) ==
  LET H == Output(e.c, e.u, Theta(r.W, r.b), Q)
      k == Last(e.u)
      Best(i) == {j \in 1..k : \A d \in 1..k : RLe(H[i][d], RAdd(H[i][j], in.eps))}
      l == Labels(e.Y)
  IN IF in.reg THEN RCloseAll(r.P, H, in.eps)
     ELSE /\ IsMatrix(r.P, Len(Q), Cols(e.Y))
          /\ \A i \in 1..Len(Q) :
               IF Binary(e.Y) /\ k = 1 THEN \/ r.P[i][1] = R1 /\ RLe(RHalf, RAdd(H[i][1], in.eps))
                                            \/ r.P[i][1] = R0 /\ RLe(H[i][1], RAdd(RHalf, in.eps))
               ELSE IF Binary(e.Y) THEN \E j \in Best(i) : r.P[i] = [d \in 1..k |-> IF d = j THEN R1 ELSE R0]
               ELSE \E j \in Best(i) : r.P[i][1] = l[j]
Unfitted == [fitted |-> FALSE]
\* is the history from step i on allowed, est being the networks so far
RECURSIVE Check(_, _, _, _)
Check(in, res, i, est) ==
  IF i > Len(in.ops) THEN Len(res) = Len(in.ops)
  ELSE LET op == in.ops[i]
           r == res[i]
           e == est[op.h]
       IN CASE op.op = "clone" -> Check(in, res, i + 1, Append(est, e))
            [] op.op = "load" ->
                 LET u == op.units IN
                 /\ ShapeOK(u, r) /\ r.W = op.W /\ r.b = op.b
                 /\ Check(in, res, i + 1, [est EXCEPT ![op.h] = [fitted |-> TRUE, c |-> [op.c EXCEPT !.out = IF Last(u) > 1 THEN "softmax" ELSE "logistic"],
                       u |-> u, Y |-> <<[j \in 1..Last(u) |-> R0], [j \in 1..Last(u) |-> R1]>>, th |-> Theta(op.W, op.b), sim |-> <<>>]])
            [] op.op = "predict" -> /\ Theta(r.W, r.b) = e.th
                                    /\ PredOK(in, e, op.Q, r)
                                    /\ Len(op.SY) > 0 => RClose(r.score, IF in.reg THEN R2(r.P, op.SY) ELSE Accuracy(r.P, op.SY), in.eps)
                                    /\ Check(in, res, i + 1, est)
            [] op.op = "fit" ->
                 LET T == TLCEval(Target(in.reg, op.Y))
                     c == TLCEval(Cfg(in, op))
                     u == Units(op, T)
                     warm == op.warm /\ e.fitted
                     th0 == IF warm THEN e.th ELSE Theta(r.W0, r.b0)
                     start == TLCEval(IF warm /\ e.sim # <<>> THEN Continued(c, u, e.sim[1], e.th) ELSE Fresh(c, u, th0))
                 IN /\ ShapeOK(u, r) /\ (warm \/ ShapeOK(u, [W |-> r.W0, b |-> r.b0]))
                    /\ r.X = op.X /\ r.Y = op.Y
                    /\ IF c.solver = "lbfgs"
                       THEN /\ LbfgsOK(in, c, u, th0, r, op, T)
                            /\ Check(in, res, i + 1, [est EXCEPT ![op.h] = [fitted |-> TRUE, c |-> c, u |-> u, Y |-> op.Y, th |-> Theta(r.W, r.b),
                                 sim |-> <<[start EXCEPT !.curve = r.curve, !.best = r.best]>>]])
                       ELSE LET s == Explained(in, c, u, start, op, T, r, Devs(in, c, Len(op.X)), 1)
                            IN /\ s # <<>>
                               /\ IF s[1].wild THEN in.reg \/ AllFinite(Theta(r.W, r.b) \o r.curve) ELSE
                                  Check(in, res, i + 1, [est EXCEPT ![op.h] = [fitted |-> TRUE, c |-> c, u |-> u, Y |-> op.Y, th |-> Theta(r.W, r.b), sim |-> s]])
AcceptRecord(r) == Check(r.in, r.out.res, 1, <<Unfitted>>)
=============================================================================
