----------------------------- MODULE MemoryGen -----------------------------
(* Every kind of estimator, transformer and function with every pair of layouts of the data and the targets; the layouts and
   receivers of the calls that follow rotate. *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
Lays == <<"packed", "view", "tail", "foreign", "trans", "vec">>
Recvs == <<"nil", "empty", "dense", "view", "tail", "foreign">>
K(name, sort, eps) == [kind |-> name, sort |-> sort, eps |-> eps]
Tight == "1/10000000"
Loose == "1/1000"
Trans(n) == K(n, "trans", Tight)
Inv(n) == K(n, "inv", Tight)
Part(n) == K(n, "part", Tight)
Pred(n) == K(n, "pred", Tight)
Prob(n) == K(n, "prob", Tight)
Fn(n) == K(n, "fn", Tight)
Kinds == << Part("minmax"), Part("standard"), Inv("robust"), Part("maxabs"), Trans("poly"), Inv("onehot"), Inv("shuffler"), Trans("binarizer"), Trans("normalizer"),
  Trans("kernelc"), Trans("quantile"), Inv("power"), Inv("boxcox"), Inv("func"), Inv("labelbin"), Trans("multilabel"), Part("encoder"), Trans("imputer"), Inv("kbins"), Inv("pca"),
  Prob("gnb"), Pred("svc"), Pred("svr"), Pred("kmeans"), Pred("dbscan"), Pred("mlpr"), Pred("mlpc"), Pred("gpr"), [Pred("ridge") EXCEPT !.eps = Loose], Pred("linear"),
  [Pred("sgd") EXCEPT !.eps = Loose], Pred("enet"), Pred("mtlasso"), Prob("bayes"), Prob("logistic"), Pred("centroid"), Pred("knr"), Prob("knc"), Pred("pipe"), Pred("grid"),
  Fn("nearest"), Fn("kdtree"), Fn("split"), Fn("cv"), Fn("stats"), Fn("enetpath"), Fn("preprocess"), Fn("gpex"), Fn("regmetrics"), Fn("clfmetrics"), Fn("ranking"), Fn("decision"), Fn("linfit"), Fn("dist"), Fn("chain") >>
At(s, i) == s[1 + (i % Len(s))]
C(o, i) == [o |-> o, lx |-> At(Lays, i), ly |-> At(Lays, i \div 2), recv |-> At(Recvs, i \div 3), rows |-> IF (i % 4) = 0 THEN "X" ELSE "Q"]
Ops(k, a, b, i) ==
  LET fit == [C("fit", i) EXCEPT !.lx = Lays[a], !.ly = Lays[b]]
      some == CASE k.sort = "trans" -> <<fit, C("transform", i), C("fittransform", i + 5), C("transform", i + 1)>>
                [] k.sort = "inv" -> <<fit, C("transform", i), C("inverse", i + 1), C("fittransform", i + 2), C("inverse", i + 3)>>
                [] k.sort = "part" -> <<fit, C("transform", i), C("partial", i + 2), C("inverse", i + 1), C("fittransform", i + 4), C("transform", i + 3)>>
                [] k.sort = "pred" -> <<fit, C("predict", i), C("score", i + 1), C("predict", i + 7), C("predict", i + 14)>>
                [] k.sort = "prob" -> <<fit, C("predict", i), C("probas", i + 2), C("score", i + 1), C("predict", i + 8), C("probas", i + 13)>>
                [] OTHER -> << [C("fn", i) EXCEPT !.lx = Lays[a], !.ly = Lays[b]] >>
  IN IF k.kind = "gnb" THEN <<some[1]>> \o <<C("partial", i + 4)>> \o SubSeq(some, 2, Len(some)) ELSE some
Seed == CHOOSE n \in 0..996 : ToString(n) = IOEnv.VERIF_SEED
Rounds == IF IOEnv.VERIF_TIER = "thorough" THEN 12 ELSE 1
Case(k, a, b, r) == LET i == (a * 7) + (b * 5) + (r * 11) + Seed
                    IN [op |-> "mem", in |-> [kind |-> k.kind, eps |-> k.eps, cfg |-> 1 + ((a + b + r) % 2), variant |-> (Seed * 13) + (r * 29) + (((a * 3) + b) % 9), ops |-> Ops(k, a, b, i)]]
Cases == {Case(Kinds[k], a, b, r) : k \in 1..Len(Kinds), a \in 1..6, b \in 1..6, r \in 1..Rounds}
ASSUME ndJsonSerialize(IOEnv.VERIF_CASES, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
