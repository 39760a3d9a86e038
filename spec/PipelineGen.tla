---------------------------- MODULE PipelineGen ----------------------------
(* Every history of four calls after a first fit, on a pipeline and its clones. *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
St(a, b, cy, dy, rev, inv) == [a |-> a, b |-> b, cy |-> cy, dy |-> dy, rev |-> rev, inv |-> inv, wx |-> rev, wy |-> inv /\ cy = "3"]
StepSets == << << St("2", "1", "3", "-1", TRUE, TRUE), St("-1", "3", "1", "0", FALSE, FALSE), St("1/2", "0", "2", "5", FALSE, TRUE) >>,
              << St("1", "2", "-2", "1", FALSE, TRUE), St("3", "0", "1", "4", TRUE, TRUE) >>, << >> >>
XA == << <<"1", "2">>, <<"3", "-1">>, <<"0", "5">> >>
YA == << <<"1">>, <<"4">>, <<"-2">> >>
XB == << <<"4">>, <<"-2">> >>
YB == << <<"2", "0">>, <<"7", "1">> >>
Outs(k) == IF k = 1 THEN 1 ELSE 2
\* k: which data the pipeline was last fitted on
Op(p, a, k) == CASE a = "fitB" -> [o |-> "fit", p |-> p, X |-> XB, Y |-> YB]
              [] a = "clone" -> [o |-> "clone", p |-> p]
              [] a = "predict" -> [o |-> "predict", p |-> p, X |-> XA, recv |-> "filled", outs |-> Outs(k)]
              [] a = "score" -> [o |-> "score", p |-> p, X |-> XB, Y |-> YB]
Acts == {"fitB", "clone", "predict", "score"}
\* a history is a sequence of (pipeline, action); the fitted data set of each pipeline follows
RECURSIVE Build(_, _, _)
Build(h, fitted, n) ==
  IF n > Len(h) THEN <<>>
  ELSE LET e == h[n] IN <<Op(e[1], e[2], fitted[e[1]])>> \o
         Build(h, CASE e[2] = "fitB" -> [fitted EXCEPT ![e[1]] = 2] [] e[2] = "clone" -> Append(fitted, fitted[e[1]]) [] OTHER -> fitted, n + 1)
RECURSIVE Hists(_, _)
Hists(n, np) == IF n = 0 THEN {<<>>}
                ELSE UNION {{<< <<p, a>> >> \o t : t \in Hists(n - 1, IF a = "clone" THEN np + 1 ELSE np)} : p \in 1..np, a \in Acts}
Depth == IF IOEnv.VERIF_TIER = "thorough" THEN 4 ELSE 3
Cases == {[op |-> "hist", in |-> [steps |-> StepSets[q], make |-> (q = 2), lay |-> "packed",
             ops |-> << [o |-> "fit", p |-> 1, X |-> XA, Y |-> YA] >> \o Build(h, <<1>>, 1)]] : h \in Hists(Depth, 1), q \in 1..3}
ASSUME ndJsonSerialize(IOEnv.VERIF_CASES, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
