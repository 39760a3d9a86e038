---------------------------- MODULE CrossValImpl ----------------------------
(***************************************************************************)
(* CrossValidate as designed: the splits are handed to workers in chunks;  *)
(* a worker clones, fits, predicts, scores and stores under the split's    *)
(* own number. Every interleaving is a behaviour of CrossVal.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NFolds, MaxJobs
VARIABLES splits, est, asked, score, returned, jobs, pos, pc, stored
vars == <<splits, est, asked, score, returned, jobs, pos, pc, stored>>
A == INSTANCE CrossVal
TheSplits == [f \in 1..NFolds |-> [train |-> <<f, f + 10>>, test |-> <<f + 20>>]]
Per == (NFolds + jobs - 1) \div jobs
First(w) == (w - 1) * Per + 1
Last(w) == IF w * Per > NFolds THEN NFolds ELSE w * Per
Init == /\ A!CVInit(TheSplits) /\ jobs \in 1..MaxJobs
        /\ pos = [w \in 1..jobs |-> First(w)] /\ pc = [w \in 1..jobs |-> "clone"]
        /\ stored = [f \in 1..NFolds |-> [s |-> 0, e |-> 0]]
Busy(w) == pos[w] <= Last(w)
Step(w) ==
  /\ Busy(w)
  /\ LET f == pos[w] IN
     \/ pc[w] = "clone" /\ A!Clone(0, f) /\ pc' = [pc EXCEPT ![w] = "fit"] /\ UNCHANGED <<pos, stored>>
     \/ pc[w] = "fit" /\ A!Fit(f, splits[f].train, splits[f].train) /\ pc' = [pc EXCEPT ![w] = "predict"] /\ UNCHANGED <<pos, stored>>
     \/ pc[w] = "predict" /\ A!Predict(f, splits[f].test) /\ pc' = [pc EXCEPT ![w] = "score"] /\ UNCHANGED <<pos, stored>>
     \/ pc[w] = "score" /\ A!Score(f, splits[f].test, splits[f].test, 100 + f) /\ pc' = [pc EXCEPT ![w] = "store"] /\ UNCHANGED <<pos, stored>>
     \/ pc[w] = "store" /\ stored' = [stored EXCEPT ![f] = [s |-> 100 + f, e |-> f]]
        /\ pos' = [pos EXCEPT ![w] = f + 1] /\ pc' = [pc EXCEPT ![w] = "clone"]
        /\ UNCHANGED <<splits, est, asked, score, returned>>
  /\ UNCHANGED jobs
Finish == /\ \A w \in 1..jobs : ~Busy(w)
          /\ A!Return([f \in 1..NFolds |-> stored[f].s],
                      [f \in 1..NFolds |-> [id |-> stored[f].e, x |-> splits[f].train, y |-> splits[f].train]])
          /\ UNCHANGED <<jobs, pos, pc, stored>>
Next == Finish \/ \E w \in 1..jobs : Step(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Inv == A!CVInv
Terminates == <>returned
=============================================================================
