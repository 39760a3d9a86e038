------------------------------ MODULE CrossVal ------------------------------
(***************************************************************************)
(* One call of CrossValidate on a splitter that yields the given splits.   *)
(* Estimators are numbered; 0 is the one given by the caller. Rows are     *)
(* known by number, so a matrix of rows is a sequence of numbers.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES splits,   \* sequence of [train, test]
          est,      \* estimator number -> 0 (unfitted) or the fold it was fitted for
          asked,    \* folds whose estimator was asked to predict
          score,    \* fold -> score computed for it
          returned
cvVars == <<splits, est, asked, score, returned>>
Count(s, x) == Cardinality({j \in 1..Len(s) : s[j] = x})
SameRows(s, t) == Len(s) = Len(t) /\ \A j \in 1..Len(s) : Count(s, s[j]) = Count(t, s[j])
Folds == 1..Len(splits)
Fitted(f) == \E e \in DOMAIN est : est[e] = f
CVInit(sp) == /\ splits = sp /\ est = [e \in {0} |-> 0] /\ asked = {}
              /\ score = [f \in {} |-> 0] /\ returned = FALSE

\* a copy of an unfitted estimator
Clone(p, c) ==
  /\ ~returned /\ c \notin DOMAIN est /\ p \in DOMAIN est /\ est[p] = 0
  /\ est' = [e \in DOMAIN est \cup {c} |-> IF e = c THEN 0 ELSE est[e]]
  /\ UNCHANGED <<splits, asked, score, returned>>
\* a fresh clone is fitted on the training rows of a fold nobody took, every row with its own targets
Fit(c, xr, yr) ==
  /\ ~returned /\ c \in DOMAIN est /\ c # 0 /\ est[c] = 0 /\ xr = yr
  /\ \E f \in Folds : /\ ~Fitted(f) /\ SameRows(xr, splits[f].train)
                      /\ est' = [est EXCEPT ![c] = f]
  /\ UNCHANGED <<splits, asked, score, returned>>
\* it predicts the test rows of its own fold
Predict(c, xr) ==
  /\ ~returned /\ c \in DOMAIN est /\ est[c] # 0
  /\ SameRows(xr, splits[est[c]].test)
  /\ asked' = asked \cup {est[c]}
  /\ UNCHANGED <<splits, est, score, returned>>
\* predictions of c for rows pr are scored against the targets of the same rows
Score(c, pr, yr, s) ==
  /\ ~returned /\ c \in DOMAIN est /\ est[c] \in asked
  /\ pr = yr /\ SameRows(yr, splits[est[c]].test)
  /\ est[c] \notin DOMAIN score
  /\ score' = [f \in DOMAIN score \cup {est[c]} |-> IF f = est[c] THEN s ELSE score[f]]
  /\ UNCHANGED <<splits, est, asked, returned>>
\* result k is that of split k, and its estimator still knows the rows it was fitted on
Return(scores, ests) ==
  /\ ~returned /\ DOMAIN score = Folds
  /\ Len(scores) = Len(splits) /\ Len(ests) = Len(splits)
  /\ \A f \in Folds : /\ scores[f] = score[f]
                      /\ ests[f].id \in DOMAIN est /\ est[ests[f].id] = f
                      /\ ests[f].x = ests[f].y /\ SameRows(ests[f].x, splits[f].train)
  /\ returned' = TRUE
  /\ UNCHANGED <<splits, est, asked, score>>
GivenUnfitted == est[0] = 0
CVInv == /\ GivenUnfitted
         /\ \A a, b \in DOMAIN est : a # b /\ est[a] # 0 => est[a] # est[b]
         /\ returned => DOMAIN score = Folds
=============================================================================
