------------------------------- MODULE LinFit -------------------------------
(***************************************************************************)
(* Fitting by minimising a loss. With a solver it is a machine: the state  *)
(* holds the solver (OptimDefs, with the current parameters), the samples  *)
(* not yet used in this epoch, and the parameters at the end of each epoch *)
(* with their loss. Events: batch (the loss and gradient of some samples   *)
(* are asked for; then the solver makes a step), eval (the loss of all     *)
(* samples at the end of an epoch). The result is a best one of those      *)
(* epoch ends. With a method of gonum/optimize only the result is stated:  *)
(* the gradient of the loss vanishes.                                      *)
(***************************************************************************)
EXTENDS LossesDefs, OptimDefs, FiniteSets, FiniteSetsExt, SequencesExt, Judge
\* a problem restricted to some samples, at parameters T
At(in, X, Y, T) == [kind |-> in.kind, act |-> in.act, X |-> X, Y |-> Y, Theta |-> T, alpha |-> in.alpha, l1 |-> in.l1, n |-> Len(in.X), skip1 |-> in.skip1]
Zof(p) == RMatMul(p.X, p.Theta)
Hof(p) == LET Z == Zof(p) IN [i \in 1..Len(Z) |-> Map(Z[i], LAMBDA z : Act(p.act, z))]
LossAt(in, T) == LET p == At(in, in.X, in.Y, T) IN Value(p, Hof(p))
BatchSize(in) ==
  LET n == Len(in.X)
      root == CHOOSE r \in 0..n : r * r <= n /\ (r + 1) * (r + 1) > n
  IN IF in.batch > 0 THEN IF in.batch < n THEN in.batch ELSE n
     ELSE IF root > 100 THEN 100 ELSE root
Row(X, Y, i) == X[i] \o Y[i]
RowsOf(X, Y) == [i \in 1..Len(X) |-> Row(X, Y, i)]
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
SameBag(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : Count(s, s[i]) = Count(t, s[i])
Within(s, t) == Len(s) <= Len(t) /\ \A i \in 1..Len(s) : Count(s, s[i]) <= Count(t, s[i])
Begin(in) == [opt |-> Start(in.c, in.theta), used |-> <<>>, ends |-> <<>>, ok |-> TRUE]
All(in) == RowsOf(in.X, in.Y)
IsEval(in, s) == Len(s.used) = Len(in.X)
Moved(in, s, e) ==
  LET rows == RowsOf(e.X, e.Y)
      p == At(in, e.X, e.Y, e.theta)
      here == NearAll(e.theta, s.opt.theta)
      left == Len(in.X) - Len(s.used)
      x == Step(s.opt, e.grad)
  IN IF IsEval(in, s)
     THEN [s EXCEPT !.used = <<>>, !.ends = Append(@, [theta |-> e.theta, J |-> e.J]),
                    !.ok = here /\ SameBag(rows, All(in)) /\ Near(e.J, Value(p, Hof(p)))]
     ELSE [s EXCEPT !.used = @ \o rows, !.opt = [x.s EXCEPT !.theta = AddM(e.theta, x.up)],
                    !.ok = /\ here
                           /\ Len(rows) = (IF left < BatchSize(in) THEN left ELSE BatchSize(in))
                           /\ Within(s.used \o rows, All(in))
                           /\ GradOK(p, Zof(p), Hof(p), e.grad)]
RECURSIVE Run(_, _, _, _)
Run(in, es, k, s) == IF k > Len(es) \/ ~s.ok THEN s ELSE Run(in, es, k + 1, TLCEval(Moved(in, s, es[k])))
SolverOK(in, out) ==
  LET s == Run(in, out.events, 1, Begin(in))
  IN /\ s.ok /\ s.used = <<>> /\ Len(s.ends) = in.epochs
     /\ \E i \in 1..Len(s.ends) :
          /\ \A j \in 1..Len(s.ends) : RLe(s.ends[i].J, RAdd(s.ends[j].J, RMul(Tol, RAdd(R1, RAbs(s.ends[j].J)))))
          /\ NearAll(out.theta, s.ends[i].theta)
     /\ Near(out.J, LossAt(in, out.theta))
     \* the recorder saw the start and the end of every epoch
     /\ ~in.norec =>
          /\ Len(out.recs) = in.epochs + 1
          /\ NearAll(out.recs[1].theta, in.theta)
          /\ \A i \in 1..in.epochs : /\ NearAll(out.recs[i+1].theta, s.ends[i].theta) /\ Near(out.recs[i+1].F, s.ends[i].J)
Small(in) == "1/10000"
MethodOK(in, out) ==
  LET p == At(in, in.X, in.Y, out.theta)
      Z == TLCEval(Zof(p))
      H == TLCEval(Hof(p))
  IN /\ IsMatrix(out.theta, Cols(in.X), Cols(in.Y)) /\ MatFinite(out.theta)
     /\ \A j \in 1..Cols(in.X) : \A o \in 1..Cols(in.Y) : RLe(RAbs(Smooth(p, Z, H, j, o)), Small(in))
     /\ RClose(out.J, Value(p, H), Tol)
=============================================================================
