---------------------------- MODULE InterpTrace ----------------------------
EXTENDS Interp
AcceptRecord(r) ==
  LET in == r.in
      out == r.out
      Q == 1..Len(in.q)
  IN /\ Len(out.v) = Len(in.q) /\ out.kept
     /\ CASE r.op = "linear" -> \A i \in Q : Near(out.v[i], Linear(in.x, in.y, in.q[i]))
          [] r.op = "cubic" -> LET pts == Points(in.x, in.y) k == Slopes(pts) IN \A i \in Q : Near(out.v[i], Hermite(pts, k, Seg(pts, in.q[i]), in.q[i]))
          [] r.op = "bilinear" -> \A i \in Q : Near(out.v[i], Bilinear(in.x, in.y, in.z, in.q[i], in.q2[i]))
=============================================================================
