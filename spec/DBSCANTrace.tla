----------------------------- MODULE DBSCANTrace -----------------------------
EXTENDS Neighbors, DBSCAN
(* Histories of fits on one estimator (or its clones): every fit stands alone. *)
TheInit(in) == in.cfg
TheNext(s, op) == s
Weight(w, j) == IF w = <<>> THEN R1 ELSE w[j]
Hood(X, p, eps, i) == {j \in 1..Len(X) : RLe(DistP(X[i], X[j], p), Powr(eps, p))}
TheOK(c, op, r) ==
  LET n == Len(op.X)
      N == [i \in 1..n |-> Hood(op.X, c.p, c.eps, i)]
      core == {i \in 1..n : RLe(c.min, FoldSet(LAMBDA j, a : RAdd(a, Weight(op.w, j)), R0, N[i]))}
  IN /\ ValidLabels(n, N, core, r.labels)
     /\ {r.core[a] + 1 : a \in 1..Len(r.core)} = core /\ Len(r.core) = Cardinality(core)
     /\ r.P = [i \in 1..n |-> << RInt(r.labels[i]) >>]
=============================================================================
