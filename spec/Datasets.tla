------------------------------ MODULE Datasets ------------------------------
(***************************************************************************)
(* Readers return what the file holds; generators follow their model.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Reals
\* a file is a sequence of named matrices; a later one of the same name replaces the earlier
LastOf(vars, name) == vars[CHOOSE i \in 1..Len(vars) : vars[i].name = name /\ \A j \in (i + 1)..Len(vars) : vars[j].name # name].M
Names(vars) == {vars[i].name : i \in 1..Len(vars)}
SameNum(a, b) == Near(a, b) /\ RClose(RMul(a, "1000000000000"), RMul(b, "1000000000000"), "1/100000000000000")   \* decimal text to double: 14 digits
SameTable(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : Len(A[i]) = Len(B[i]) /\ \A j \in 1..Len(A[i]) : SameNum(A[i][j], B[i][j])
ExactTable(A, B) == Len(A) = Len(B) /\ \A i \in 1..Len(A) : Len(A[i]) = Len(B[i]) /\ \A j \in 1..Len(A[i]) : REq(A[i][j], B[i][j])
OctaveOK(in, out) ==
  /\ Names(out.vars) = Names(in.vars) /\ Len(out.vars) = Cardinality(Names(in.vars))
  /\ \A i \in 1..Len(out.vars) : ExactTable(out.vars[i].M, LastOf(in.vars, out.vars[i].name))
AsColumn(v) == [i \in 1..Len(v) |-> <<v[i]>>]
TableOK(in, out) ==   \* bundled tables: features, targets and names of the file
  /\ SameTable(out.X, in.X) /\ SameTable(out.Y, in.Y)
  /\ out.features = in.features /\ out.targets = in.targets
XYOK(in, out) == ExactTable(out.X, in.data) /\ ExactTable(out.Y, AsColumn(in.target))
Differ(M) == \E a, b \in 1..Len(M) : \E c, d \in 1..Len(M[1]) : ~REq(M[a][c], M[b][d])
\* y = X[, informative] coef + bias
RegressionOK(in, out) ==
  LET ni == IF in.informative > in.features THEN in.features ELSE in.informative IN
  /\ IsMatrix(out.X, in.samples, in.features) /\ IsMatrix(out.Y, in.samples, in.targets) /\ IsMatrix(out.C, ni, in.targets)
  /\ \A i \in 1..in.samples : \A t \in 1..in.targets :
       Near(out.Y[i][t], RAdd(RDot(SubSeq(out.X[i], 1, ni), Col(out.C, t)), IF Len(in.bias) = 0 THEN R0 ELSE IF Len(in.bias) = 1 THEN in.bias[1] ELSE in.bias[t]))
  /\ (in.samples * in.features > 2) => Differ(out.X)
  /\ in.seeded => out.X = out.X2 /\ out.Y = out.Y2 /\ out.C = out.C2
\* samples around the centre of their label, spread by the deviation asked for
Spread(D) == RSqrt(RMean([i \in 1..Len(D) |-> RMean([j \in 1..Len(D[i]) |-> RSq(D[i][j])])]))
BlobsOK(in, out) ==
  LET k == in.ncenters
      nf == IF Len(in.centers) > 0 THEN Cols(in.centers) ELSE in.features
      lab(i) == out.Y[i][1]
  IN /\ IsMatrix(out.X, in.samples, nf) /\ IsMatrix(out.Y, in.samples, 1) /\ MatFinite(out.X)
     /\ \A i \in 1..in.samples : \E c \in 0..(k - 1) : REq(lab(i), RInt(c))
     /\ Len(in.centers) > 0 =>
          LET D == [i \in 1..in.samples |-> VSub(out.X[i], in.centers[RFloor(lab(i)) + 1])] IN
          /\ \A i \in 1..in.samples : \A j \in 1..nf : RLe(RAbs(D[i][j]), RMul("9", in.std))
          /\ in.samples * nf >= 200 => RLe(RMul("3/4", in.std), Spread(D)) /\ RLe(Spread(D), RMul("5/4", in.std))
          /\ (in.samples * nf >= 200 /\ in.samples >= 50) => \A j \in 1..nf : RLe(RAbs(RMean(Col(D, j))), RMul("4/5", in.std))
     \* drawn centres lie in the box: so do the samples, up to the spread
     /\ Len(in.centers) = 0 => \A i \in 1..in.samples : \A j \in 1..nf :
          RLe(RSub(in.box[1], RMul("9", in.std)), out.X[i][j]) /\ RLe(out.X[i][j], RAdd(in.box[2], RMul("9", in.std)))
     /\ (in.samples >= 100 /\ k <= 5) => \A c \in 0..(k - 1) : \E i \in 1..in.samples : REq(lab(i), RInt(c))
     /\ in.seeded => out.X = out.X2 /\ out.Y = out.Y2
     /\ out.kept
=============================================================================
