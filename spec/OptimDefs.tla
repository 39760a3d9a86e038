------------------------------- MODULE OptimDefs -------------------------------
(***************************************************************************)
(* Gradient optimizers as a state machine. The state holds the step count  *)
(* and the accumulators; a step takes a gradient and yields an update that *)
(* is added to the parameters. The gradient is clipped per output column.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, Reals
Zip2(A, C, f(_, _)) == [j \in 1..Len(A) |-> [o \in 1..Len(A[j]) |-> f(A[j][o], C[j][o])]]
Map2(A, f(_)) == [j \in 1..Len(A) |-> [o \in 1..Len(A[j]) |-> f(A[j][o])]]
Fill(A, v) == Map2(A, LAMBDA x : v)
AddM(A, C) == Zip2(A, C, RAdd)
Start(c, theta) ==
  [c |-> c, t |-> 0, theta |-> theta, prev |-> Fill(theta, R0),
   G |-> Fill(theta, c.eps), U |-> Fill(theta, R1), m |-> Fill(theta, R0), v |-> Fill(theta, R0)]
Clip(c, g) ==
  IF RLe(c.clip, R0) THEN g
  ELSE [j \in 1..Len(g) |-> [o \in 1..Len(g[j]) |->
          LET n == Norm2(Col(g, o)) IN IF RLt(c.clip, n) THEN RDiv(RMul(g[j][o], c.clip), n) ELSE g[j][o]]]
Blend(a, old, new) == RAdd(RMul(a, old), RMul(RSub(R1, a), new))
Decayed(c, t) == RDiv(RMul(c.step, "100"), RInt(100 + t))
\* the state and the plain update (before momentum) of step t with clipped gradient g
Rule(s, g, t) ==
  LET c == s.c
      past == t > 1
      sq == Map2(g, RSq)
  IN CASE c.kind = "sgd" -> [s |-> s, up |-> Map2(g, LAMBDA x : RNeg(RDiv(RMul(Decayed(c, t), x), RSqrt(RInt(t)))))]
       [] c.kind = "adagrad" ->
            [s |-> [s EXCEPT !.G = AddM(@, sq)],
             up |-> Zip2(g, s.G, LAMBDA x, G : RNeg(RMul(IF past THEN RDiv(c.step, RAdd(RSqrt(G), c.eps)) ELSE c.step, x)))]
       [] c.kind = "rmsprop" ->
            [s |-> [s EXCEPT !.G = Zip2(@, sq, LAMBDA G, q : Blend(c.gamma, G, q))],
             up |-> Zip2(g, s.G, LAMBDA x, G : RNeg(RMul(IF past /\ RLt(R1, RAbs(G)) THEN RDiv(c.step, RSqrt(RAdd(G, c.eps))) ELSE c.step, x)))]
       [] c.kind = "adadelta" ->
            LET G2 == Zip2(s.G, sq, LAMBDA G, q : Blend(c.gamma, G, q))
                up == [j \in 1..Len(g) |-> [o \in 1..Len(g[j]) |->
                         RNeg(RMul(IF past THEN RDiv(RSqrt(s.U[j][o]), RSqrt(RAdd(G2[j][o], c.eps))) ELSE Decayed(c, t), g[j][o]))]]
            IN [s |-> [s EXCEPT !.G = G2, !.U = Zip2(@, Map2(up, RSq), LAMBDA U, q : Blend(c.gamma, U, q))], up |-> up]
       [] c.kind = "adam" ->
            LET m2 == Zip2(s.m, g, LAMBDA m, x : Blend(c.b1, m, x))
                v2 == Zip2(s.v, sq, LAMBDA v, q : Blend(c.b2, v, q))
                dm == RSub(R1, RPow(c.b1, RInt(t)))
                dv == RSub(R1, RPow(c.b2, RInt(t)))
            IN [s |-> [s EXCEPT !.m = m2, !.v = v2],
                up |-> Zip2(m2, v2, LAMBDA m, v : RNeg(RDiv(RMul(c.step, RDiv(m, dm)), RAdd(RSqrt(RDiv(v, dv)), c.eps))))]
\* one step: the new state (parameters untouched) and the update
Step(s, grad) ==
  LET t == s.t + 1
      r == Rule(s, Clip(s.c, grad), t)
      up == IF RLt(R0, s.c.momentum) THEN Zip2(s.prev, r.up, LAMBDA p, u : RAdd(RMul(s.c.momentum, p), u)) ELSE r.up
  IN [s |-> [r.s EXCEPT !.t = t, !.prev = up], up |-> up]
=============================================================================
