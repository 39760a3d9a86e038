----------------------------- MODULE TransHist -----------------------------
(***************************************************************************)
(* Histories of calls on transformers. The abstract state of a transformer *)
(* is its settings and the rows it has seen since its last full fit; a     *)
(* clone starts from its original's state and goes its own way.            *)
(***************************************************************************)
EXTENDS HistJudge
Nothing == [X |-> <<>>, Y |-> <<>>]
TheInit(in) == [cfg |-> in.cfg, obj |-> <<Nothing>>]
Seen(op) == [X |-> op.X, Y |-> op.Y]
TheNext(s, op) ==
  CASE op.o \in {"fit", "fittransform"} -> [s EXCEPT !.obj[op.p] = Seen(op)]
    [] op.o = "pfit" -> [s EXCEPT !.obj[op.p] = [X |-> @.X \o op.X, Y |-> @.Y \o op.Y]]
    [] op.o = "reset" -> [s EXCEPT !.obj[op.p] = Nothing]
    [] op.o = "clone" -> [s EXCEPT !.obj = Append(s.obj, s.obj[op.p])]
    [] OTHER -> s
\* what the object has seen once the operation is done
After(s, op) == TheNext(s, op).obj[op.p]
Sorted(v) == SortSeq(v, LAMBDA a, b : RLt(a, b))
=============================================================================
