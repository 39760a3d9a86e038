------------------------------ MODULE PCATrace ------------------------------
EXTENDS PCA
\* r.V: the kept axes (transform of the identity), d by k
TheOK(s, op, r) ==
  CASE op.o = "fitted" ->
         LET F == s.obj[op.p].X
             m == Smaller(Len(F), Cols(F))
             k == Cols(r.V)
         IN /\ IsMatrix(r.V, Cols(F), k) /\ Len(r.s) = m
            /\ Orthonormal(r.V, k) /\ SingularOK(F, r.V, r.s, k) /\ EnergyOK(F, r.s)
            /\ Descending(r.s) /\ RatiosOK(r.s, r.ratio) /\ KeptOK(s.cfg, r.ratio, k, m)
            \* transforming and inverting the fitted data
            /\ MClose(r.T, Project(F, r.V), Scale(F))
            /\ MClose(r.B, Unproject(Project(F, r.V), r.V), Scale(F))
            /\ (k = m => MClose(r.B, F, Scale(F)))
    [] op.o \in {"probe"} ->
         /\ MClose(r.X, Project(op.X, r.V), Scale(op.X)) /\ r.Y = op.Y
         /\ MClose(r.B, Unproject(Project(op.X, r.V), r.V), Scale(op.X))
    [] OTHER -> TRUE
=============================================================================
