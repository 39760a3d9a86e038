---------------------------- MODULE LinFitTrace ----------------------------
EXTENDS LinFit
AcceptRecord(r) ==
  CASE r.op = "solver" -> SolverOK(r.in, r.out)
    [] r.op = "method" -> MethodOK(r.in, r.out)
=============================================================================
