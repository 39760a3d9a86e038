-------------------------- MODULE GridSearchTrace --------------------------
EXTENDS GridSearch, Judge
AcceptRecord(r) ==
  CASE r.op = "grid" -> GridOK(r.in.values, r.in.table, r.in.lower, r.in.nf, r.out)
    [] r.op = "gridfolds" -> SameFoldsOK(r.in.values, IF r.in.cv = "kfold" THEN r.in.k ELSE 3, r.out)
    [] r.op = "paramgrid" ->
         /\ Len(r.out.combos) = Cardinality(Combos(r.in.values))
         /\ {r.out.combos[j] : j \in 1..Len(r.out.combos)} = Combos(r.in.values)
=============================================================================
