---------------------------- MODULE LossesTrace ----------------------------
EXTENDS Losses
AcceptRecord(r) ==
  CASE r.op = "loss" -> LossOK(r.in, r.out)
    [] r.op = "act" -> /\ Len(r.out.f) = Len(r.in.x) /\ Len(r.out.d) = Len(r.in.x)
                       /\ \A i \in 1..Len(r.in.x) : /\ Near(r.out.f[i], Act(r.in.act, r.in.x[i]))
                                                    /\ Near(r.out.d[i], ActD(r.in.act, r.in.x[i]))
=============================================================================
