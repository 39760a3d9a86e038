----------------------------- MODULE BinsTrace -----------------------------
EXTENDS Bins
ShuffleOK(op, r) ==
  LET n == op.n
      p == Numbers(r.X, n, op.cx)
      Inv == [i \in 1..n |-> XRow(i, op.cx)]
  IN /\ Len(r.X) = n /\ IsPerm(p, n) /\ r.X = [i \in 1..n |-> XRow(p[i], op.cx)]
     /\ r.Y = (IF op.cy = 0 THEN <<>> ELSE [i \in 1..n |-> YRow(p[i], op.cy)])
     /\ r.again = r.X              \* transforming again applies the same permutation
     /\ r.sameseed = r.X           \* so does a shuffler of the same seed, and a clone
     /\ r.cloned = r.X /\ r.refitclone = r.refit
     /\ r.invX = Inv /\ r.invY = (IF op.cy = 0 THEN <<>> ELSE [i \in 1..n |-> YRow(i, op.cy)])
     /\ r.invYonly = r.invY
TheOK(s, op, r) ==
  CASE op.o \in {"transform", "fittransform"} ->
         LET F == After(s, op).X IN
         /\ Len(r.edges) = Cols(F) /\ \A j \in 1..Cols(F) : EdgesOK(s.cfg, Col(F, j), r.edges[j])
         /\ r.X = BinsOf(s.cfg, r.edges, op.X) /\ r.Y = op.Y
    [] op.o = "roundtrip" -> NearAll(r.X, Middles(s.cfg, r.edges, op.X))
    [] op.o = "shuffle" -> ShuffleOK(op, r)
    [] OTHER -> TRUE
=============================================================================
