----------------------------- MODULE Lifecycle -----------------------------
(***************************************************************************)
(* The life of estimators and transformers. The abstract state of one is   *)
(* its recipe: the shortest sequence of calls on a new one that leads to   *)
(* it. Fitting forgets all earlier calls (all those since the last seeding *)
(* when fitting draws from a random source, which they advanced), a        *)
(* partial fit adds to them, a clone starts with the recipe of its         *)
(* original, asking changes nothing, and no call changes any other object. *)
(* What an object answers is a function of its recipe and the question:    *)
(* `known` is the part of that function seen so far.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS SameAnswer(_, _)
\* an object: its recipe
Effect(kind, r, op) ==
  CASE op.o = "fit" ->
         LET c == [o |-> "fit", d |-> op.d, cfg |-> op.cfg, seed |-> IF kind.rng THEN op.seed ELSE 0]
         IN IF kind.rng /\ op.seed = 0 THEN Append(r, c) ELSE <<c>>
    [] op.o = "partial" -> Append(r, [o |-> "partial", d |-> "", cfg |-> 0, seed |-> 0])
    [] OTHER -> r
\* the recipes of all objects after op
After(kind, objs, op) ==
  CASE op.o = "new" -> Append(objs, <<>>)
    [] op.o = "clone" -> Append(objs, objs[op.h])
    [] op.o = "ask" -> objs
    [] OTHER -> [objs EXCEPT ![op.h] = Effect(kind, @, op)]
Question(objs, op) == <<objs[op.h], op.what>>
\* may the answer be given, and what is known afterwards
Answerable(objs, known, op, a) == op.o = "ask" => LET q == Question(objs, op) IN q \in DOMAIN known => SameAnswer(known[q], a)
Learn(objs, known, op, a) == IF op.o = "ask" THEN (Question(objs, op) :> a) @@ known ELSE known
\* the calls that make a recipe, on the object numbered h
Make(r, h) == <<[o |-> "new"]>> \o [i \in 1..Len(r) |-> IF r[i].o = "partial" THEN [o |-> "partial", h |-> h]
                                                       ELSE [o |-> "fit", h |-> h, d |-> r[i].d, cfg |-> r[i].cfg, seed |-> r[i].seed]]
=============================================================================
