--------------------------- MODULE CrossValTrace ---------------------------
(* Calls of the real CrossValidate with a recording estimator, as behaviours of CrossVal. *)
EXTENDS CrossVal, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES c, k
vars == <<cvVars, c, k>>
Ev == IF "ev" \in DOMAIN Trace[c].out THEN Trace[c].out.ev ELSE <<>>
Init == \E i \in 1..Len(Trace) : c = i /\ k = 0 /\ CVInit(Trace[i].in.splits)
Match == /\ k >= 0 /\ k < Len(Ev)
         /\ LET e == Ev[k+1] IN
              \/ e.e = "clone" /\ Clone(e.from, e.id)
              \/ e.e = "fit" /\ Fit(e.id, e.x, e.y)
              \/ e.e = "predict" /\ Predict(e.id, e.x)
              \/ e.e = "score" /\ Score(e.id, e.p, e.y, e.s)
              \/ e.e = "return" /\ Return(e.scores, e.ests)
         /\ k' = k + 1 /\ c' = c
Verdict == /\ k >= 0 /\ ~ENABLED Match
           /\ PrintT(<<"V", c, k = Len(Ev) /\ returned /\ Trace[c].out.intact, k>>)
           /\ k' = -1 /\ UNCHANGED <<cvVars, c>>
Next == Match \/ Verdict
Inv == CVInv
=============================================================================
