--------------------------- MODULE LifecycleTrace ---------------------------
EXTENDS Judge
Same(a, b, eps) == /\ Len(a) = Len(b)
                   /\ \A m \in 1..Len(a) : RCloseAll(a[m], b[m], eps)
RECURSIVE Run(_, _, _, _, _)
Run(in, res, i, objs, known) ==
  LET L == INSTANCE Lifecycle WITH SameAnswer <- LAMBDA a, b : Same(a, b, in.eps)
  IN IF i > Len(in.ops) THEN Len(res) = Len(in.ops)
     ELSE LET op == in.ops[i]
          IN /\ L!Answerable(objs, known, op, res[i].obs)
             /\ op.o = "ask" => Len(res[i].obs) > 0
             /\ Run(in, res, i + 1, TLCEval(L!After(in, objs, op)), TLCEval(L!Learn(objs, known, op, res[i].obs)))
AcceptRecord(r) == Run(r.in, r.out.res, 1, <<>>, <<>>)
=============================================================================
