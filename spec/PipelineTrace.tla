--------------------------- MODULE PipelineTrace ---------------------------
(* Histories of fit, predict, score and clone on real pipelines of recording steps. *)
EXTENDS Pipeline, HistJudge
\* state: the steps, and per pipeline what it learned
TheInit(in) == [steps |-> in.steps, p |-> <<"unfitted">>]
TheNext(s, op) ==
  CASE op.o \in {"fit", "fittransform"} -> [s EXCEPT !.p[op.p] = FitState(s.steps, op.X, op.Y)]
    [] op.o = "clone" -> [s EXCEPT !.p = Append(s.p, s.p[op.p])]
    [] OTHER -> s
NoFits(n) == [j \in 1..n |-> 0]
OneFit(n) == [j \in 1..n |-> 1]
TheOK(s, op, r) ==
  LET m == Len(s.steps) IN
  CASE op.o = "fit" -> r.fits = OneFit(m + 1)
    [] op.o = "clone" -> r.fits = NoFits(m + 1)
    [] op.o = "predict" -> /\ NearAll(r.y, PredictOf(s.steps, s.p[op.p], op.X))
                           /\ r.ret = r.y /\ r.fits = NoFits(m + 1)
    [] op.o = "transform" -> /\ r.x = op.X /\ NearAll(r.y, PredictOf(s.steps, s.p[op.p], op.X)) /\ r.fits = NoFits(m + 1)
    [] op.o = "fittransform" -> /\ r.x = op.X /\ NearAll(r.y, PredictOf(s.steps, FitState(s.steps, op.X, op.Y), op.X)) /\ r.fits = OneFit(m + 1)
    [] op.o = "about" -> /\ r.nouts = s.p[op.p].given /\ r.clf = RLt(R0, s.p[op.p].sx) /\ r.fits = NoFits(m + 1)
    [] op.o = "score" -> Near(r.score, ScoreOfP(s.steps, s.p[op.p], op.X, op.Y)) /\ r.fits = NoFits(m + 1)
    [] op.o = "real" -> NearAll(r.pipe, r.manual) /\ Near(r.spipe, r.smanual)
=============================================================================
