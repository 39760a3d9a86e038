---------------------------- MODULE LifecycleGen ----------------------------
(* Histories for every kind of estimator: all short ones, and longer ones picked by a seed. After each history every
   fitted object is asked, and so is a new object made by its recipe. *)
EXTENDS Integers, Sequences, SequencesExt, Json, IOUtils, TLC
L == INSTANCE Lifecycle WITH SameAnswer <- LAMBDA a, b : a = b
K(name, rng, partial, eps) == [kind |-> name, rng |-> rng, partial |-> partial, eps |-> eps]
Tight == "1/1000000000"
Loose == "1/1000"
Kinds == << K("minmax", FALSE, TRUE, Tight), K("standard", FALSE, TRUE, Tight), K("robust", FALSE, FALSE, Tight), K("maxabs", FALSE, TRUE, Tight),
  K("poly", FALSE, FALSE, Tight), K("onehot", FALSE, FALSE, Tight), K("shuffler", TRUE, FALSE, Tight), K("binarizer", FALSE, FALSE, Tight),
  K("normalizer", FALSE, FALSE, Tight), K("kernelc", FALSE, FALSE, Tight), K("quantile", FALSE, FALSE, Tight), K("power", FALSE, FALSE, Tight),
  K("boxcox", FALSE, FALSE, Tight), K("func", FALSE, FALSE, Tight), K("labelbin", FALSE, FALSE, Tight), K("multilabel", FALSE, FALSE, Tight),
  K("encoder", FALSE, TRUE, Tight), K("imputer", FALSE, FALSE, Tight), K("kbins", FALSE, FALSE, Tight), K("pca", FALSE, FALSE, Tight),
  K("gnb", FALSE, TRUE, Tight), K("svc", TRUE, FALSE, Tight), K("svr", TRUE, FALSE, Tight), K("kmeans", FALSE, FALSE, Tight), K("dbscan", FALSE, FALSE, Tight),
  K("mlpr", TRUE, FALSE, Tight), K("mlpc", TRUE, FALSE, Tight), K("gpr", FALSE, FALSE, Tight), K("ridge", FALSE, FALSE, Loose), K("linear", FALSE, FALSE, Tight),
  K("sgd", FALSE, FALSE, Loose), K("enet", FALSE, FALSE, Tight), K("mtlasso", FALSE, FALSE, Tight), K("bayes", FALSE, FALSE, Tight), K("logistic", TRUE, FALSE, Loose),
  K("centroid", FALSE, FALSE, Tight), K("knr", FALSE, FALSE, Tight), K("knc", FALSE, FALSE, Tight), K("pipe", FALSE, FALSE, Tight), K("grid", TRUE, FALSE, Tight) >>
\* what can be done to object h, given its recipe
Fit(h, d, c, s) == [o |-> "fit", h |-> h, d |-> d, cfg |-> c, seed |-> s]
Ask(h, w) == [o |-> "ask", h |-> h, what |-> w]
Acts(kind, h, r) ==
  {Fit(h, "A", 1, 1), Fit(h, "B", 2, 2), [o |-> "clone", h |-> h]}
  \cup (IF kind.rng THEN {Fit(h, "A", 1, 0), Fit(h, "B", 1, 0)} ELSE {Fit(h, "B", 1, 1)})
  \cup (IF kind.partial THEN {[o |-> "partial", h |-> h]} ELSE {})
  \cup (IF r # <<>> THEN {Ask(h, "Q")} ELSE {})
RECURSIVE All(_, _, _)
All(kind, objs, n) == IF n = 0 THEN {<<>>}
                      ELSE UNION {{<<op>> \o t : t \in All(kind, L!After(kind, objs, op), n - 1)} : op \in UNION {Acts(kind, h, objs[h]) : h \in 1..Len(objs)}}
\* a history picked by the random number s
Rnd(s) == ((s * 75) + 74) % 65537
RECURSIVE Picked(_, _, _, _)
Picked(kind, objs, n, s) ==
  IF n = 0 THEN <<>>
  ELSE LET h == 1 + ((s \div 16) % Len(objs))
           acts == SetToSeq(Acts(kind, h, objs[h]))
           op == acts[1 + ((Rnd(s) \div 16) % Len(acts))]
       IN <<op>> \o Picked(kind, L!After(kind, objs, op), n - 1, Rnd(Rnd(s)))
RECURSIVE Objects(_, _, _)
Objects(kind, objs, ops) == IF ops = <<>> THEN objs ELSE Objects(kind, L!After(kind, objs, Head(ops)), Tail(ops))
\* after history h: all fitted objects are asked, then new ones made by their recipes
Finished(kind, h) ==
  LET objs == Objects(kind, << <<>> >>, h)
      fitted == SelectSeq([i \in 1..Len(objs) |-> i], LAMBDA i : objs[i] # <<>>)
      asks == FlattenSeq([k \in 1..Len(fitted) |-> <<Ask(fitted[k], "Q"), Ask(fitted[k], "X")>>])
      recipes == SetToSeq({objs[fitted[k]] : k \in 1..Len(fitted)})
      refs == FlattenSeq([k \in 1..Len(recipes) |-> L!Make(recipes[k], Len(objs) + k) \o <<Ask(Len(objs) + k, "Q"), Ask(Len(objs) + k, "X")>>])
  IN <<[o |-> "new"]>> \o h \o asks \o refs
Case(kind, h, v) == [op |-> "life", in |-> [kind |-> kind.kind, rng |-> kind.rng, partial |-> kind.partial, eps |-> kind.eps, variant |-> v, ops |-> Finished(kind, h)]]
Thorough == IOEnv.VERIF_TIER = "thorough"
Seed == CHOOSE n \in 0..996 : ToString(n) = IOEnv.VERIF_SEED
Depth == IF Thorough THEN 3 ELSE 2
Many == IF Thorough THEN 150 ELSE 20
First(kind) == Fit(1, "A", 1, 1)
Short(k) == {Case(Kinds[k], h, ((k + Seed) % 7)) : h \in All(Kinds[k], << <<>> >>, Depth)}
            \cup {Case(Kinds[k], <<First(Kinds[k])>> \o h, ((k + Seed) % 5)) : h \in All(Kinds[k], <<L!Effect(Kinds[k], <<>>, First(Kinds[k]))>>, Depth)}
Long(k) == {Case(Kinds[k], Picked(Kinds[k], << <<>> >>, 5 + (j % 4), ((k * 1009) + (j * 173) + (Seed * 7919)) % 65537), (Seed * 31) + j) : j \in 1..Many}
Cases == UNION {Short(k) \cup Long(k) : k \in 1..Len(Kinds)}
ASSUME ndJsonSerialize(IOEnv.VERIF_CASES, SetToSeq(Cases))
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
