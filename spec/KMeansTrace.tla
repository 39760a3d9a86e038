----------------------------- MODULE KMeansTrace -----------------------------
EXTENDS KMeans, Judge
Lab(P) == [i \in 1..Len(P) |-> RFloor(P[i][1]) + 1]
IsLab(P, k) == \A i \in 1..Len(P) : Len(P[i]) = 1 /\ P[i][1] = RInt(RFloor(P[i][1])) /\ RFloor(P[i][1]) \in 0..(k - 1)
AcceptRecord(r) ==
  LET DW == IF "dw" \in DOMAIN r.in /\ Len(r.in.dw) > 0 THEN r.in.dw ELSE [j \in 1..Cols(r.in.X) |-> R1]
      X == r.in.X
      C == r.out.C
      Nearest(x, c) == AboutClosestW(DW, C, x, c)
  IN /\ IsMatrix(C, r.in.k, Cols(X))
     /\ Len(r.out.L) = Len(X) /\ IsLab(r.out.L, r.in.k)
     /\ \A i \in 1..Len(X) : Nearest(X[i], Lab(r.out.L)[i])
     /\ Stationary(X, C, Lab(r.out.L))
     \* prediction of other points
     /\ Len(r.out.P) = Len(r.in.Q) /\ IsLab(r.out.P, r.in.k)
     /\ \A i \in 1..Len(r.in.Q) : Nearest(r.in.Q[i], Lab(r.out.P)[i])
     \* other numbers of jobs, and fitting again
     /\ \A a \in 1..Len(r.out.others) : NearAll(r.out.others[a], C)
=============================================================================
