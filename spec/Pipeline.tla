------------------------------ MODULE Pipeline ------------------------------
(***************************************************************************)
(* A pipeline of m transformers and a final estimator, as a machine whose  *)
(* state is what each step learned at its last fit.                        *)
(* Step i (steps[i], fixed): X -> a*X + b + s on every entry, where s is   *)
(* the sum of the first column it was fitted on; rows reversed if rev;     *)
(* X with one more column in front (the sum of the row) if wx; Y with      *)
(* twice as many columns (negated, then itself) if wy.                     *)
(* Y -> cy*Y + dy; steps with inv = FALSE have no inverse and leave Y be.  *)
(* The final estimator learns the first-column sums of X and Y weighted by *)
(* row number (so row order shows) and predicts from them.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, Reals, TLC
RevRows(M) == [j \in 1..Len(M) |-> M[Len(M) + 1 - j]]
MapM(M, f(_)) == [j \in 1..Len(M) |-> [l \in 1..Len(M[j]) |-> f(M[j][l])]]
ColSum(M) == RSum(Col(M, 1))
Weighted(M) == RSum([j \in 1..Len(M) |-> RMul(RInt(j), M[j][1])])
WidenX(sp, M) == IF sp.wx THEN [j \in 1..Len(M) |-> <<RSum(M[j])>> \o M[j]] ELSE M
WidenY(sp, M) == IF sp.wy THEN [j \in 1..Len(M) |-> Map(M[j], RNeg) \o M[j]] ELSE M
NarrowY(sp, M) == IF sp.wy THEN [j \in 1..Len(M) |-> SubSeq(M[j], 1 + Len(M[j]) \div 2, Len(M[j]))] ELSE M
TX(sp, s, X) == LET Y == MapM(X, LAMBDA v : RAdd(RMul(sp.a, v), RAdd(sp.b, s))) IN TLCEval(WidenX(sp, TLCEval(IF sp.rev THEN RevRows(Y) ELSE Y)))
TY(sp, Y) == LET Z == MapM(Y, LAMBDA v : RAdd(RMul(sp.cy, v), sp.dy)) IN TLCEval(WidenY(sp, TLCEval(IF sp.rev THEN RevRows(Z) ELSE Z)))
InvY(sp, Y) == IF ~sp.inv THEN Y
               ELSE LET Z == MapM(TLCEval(NarrowY(sp, TLCEval(Y))), LAMBDA v : RDiv(RSub(v, sp.dy), sp.cy)) IN IF sp.rev THEN RevRows(Z) ELSE Z
\* a step is a transformer or, inside the pipeline too, a predicter, which leaves X and replaces Y by its predictions
IsPred(sp) == "pred" \in DOMAIN sp /\ sp.pred
FinalPredict(p, X) == [j \in 1..Len(X) |-> [o \in 1..p.outs |-> RAdd(X[j][1], RAdd(RMul(RInt(o), p.sx), p.sy))]]
LearnStep(sp, d) == IF IsPred(sp) THEN [sx |-> Weighted(d.x), sy |-> Weighted(d.y), outs |-> Cols(d.y)] ELSE [s |-> ColSum(d.x)]
StepX(sp, l, d) == IF IsPred(sp) THEN d.x ELSE TX(sp, l.s, d.x)
StepY(sp, l, d) == IF IsPred(sp) THEN FinalPredict(l, d.x) ELSE TY(sp, d.y)
Step(sp, l, d) == TLCEval([x |-> StepX(sp, l, d), y |-> StepY(sp, l, d)])
\* data after the first n steps of a fitted pipeline
RECURSIVE After(_, _, _, _), XAfter(_, _, _, _), Back(_, _, _), Learn(_, _, _, _)
After(steps, learned, n, d) == IF n = 0 THEN d ELSE Step(steps[n], learned[n], TLCEval(After(steps, learned, n - 1, d)))
XAfter(steps, learned, n, X) == IF n = 0 THEN X ELSE TLCEval(StepX(steps[n], learned[n], [x |-> TLCEval(XAfter(steps, learned, n - 1, X))]))
Back(steps, n, Y) == IF n = 0 THEN Y ELSE Back(steps, n - 1, TLCEval(InvY(steps[n], Y)))
\* fitting: each step learns from the output of the previous ones, which already learned
Learn(steps, n, learned, d) == IF n > Len(steps) THEN learned
                               ELSE LET l == TLCEval(LearnStep(steps[n], d))
                                    IN Learn(steps, n + 1, TLCEval(Append(learned, l)), TLCEval(Step(steps[n], l, d)))
FitState(steps, X, Y) ==
  LET l == TLCEval(Learn(steps, 1, <<>>, [x |-> X, y |-> Y]))
      d == TLCEval(After(steps, l, Len(steps), [x |-> X, y |-> Y]))
  IN [learned |-> l, sx |-> Weighted(d.x), sy |-> Weighted(d.y), outs |-> Cols(d.y), given |-> Cols(Y)]
PredictOf(steps, p, X) == Back(steps, Len(steps), FinalPredict(p, XAfter(steps, p.learned, Len(steps), X)))
ScoreOfP(steps, p, X, Y) ==
  LET d == TLCEval(After(steps, p.learned, Len(steps), [x |-> X, y |-> Y])) IN RAdd(Weighted(d.x), RMul("3", Weighted(d.y)))
=============================================================================
