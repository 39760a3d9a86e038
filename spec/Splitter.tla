------------------------------ MODULE Splitter ------------------------------
(***************************************************************************)
(* Cross-validation splitters. Rows are 0..n-1; a splitter emits k splits, *)
(* each a pair of index sequences.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Reals
Rng(s) == {s[j] : j \in 1..Len(s)}
NoRepeat(s) == Cardinality(Rng(s)) = Len(s)
\* one split divides the rows
ValidSplit(n, sp) ==
  /\ NoRepeat(sp.train) /\ NoRepeat(sp.test)
  /\ Rng(sp.train) \cap Rng(sp.test) = {}
  /\ Rng(sp.train) \cup Rng(sp.test) = 0..(n-1)
RECURSIVE SumLens(_)
SumLens(s) == IF s = <<>> THEN 0 ELSE Len(Head(s).test) + SumLens(Tail(s))
\* a k-fold splitter
ValidKFold(n, k, sps) ==
  /\ Len(sps) = k
  /\ \A j \in 1..k : ValidSplit(n, sps[j])
  /\ \A a, b \in 1..k : Len(sps[a].test) <= Len(sps[b].test) + 1
  /\ SumLens(sps) = n
\* every row is tested exactly once over the k splits
Covers(n, sps) == /\ UNION {Rng(sps[j].test) : j \in 1..Len(sps)} = 0..(n-1)
                  /\ \A a, b \in 1..Len(sps) : a # b => Rng(sps[a].test) \cap Rng(sps[b].test) = {}
\* number of test rows asked for: a fraction of the rows, or (above 1) a count, rounded up.
\* ts is a double, so the product may round across an integer: both neighbours are allowed there
CeilR(x) == -RFloor(RNeg(x))
AskedTest(n, ts) == IF RLt("1", ts) THEN LET c == CeilR(ts) IN IF c > n THEN {n} ELSE {c}
                    ELSE LET x == RMul(RInt(n), ts) IN
                         {CeilR(RMul(x, "1000000000000001/1000000000000000")),
                          CeilR(RMul(x, "999999999999999/1000000000000000"))}
\* X[i] and Y[i] are row i; rows of X are pairwise different, so a row is known by its contents
TaggedRows(X, Y) == {<<X[j], Y[j]>> : j \in 1..Len(X)}
ValidTTS(X, Y, ts, o) ==
  /\ Len(o.Xtest) = Len(o.Ytest) /\ Len(o.Xtrain) = Len(o.Ytrain)
  /\ Len(o.Xtest) \in AskedTest(Len(X), ts)
  /\ Len(o.Xtest) + Len(o.Xtrain) = Len(X)
  /\ TaggedRows(o.Xtest, o.Ytest) \cup TaggedRows(o.Xtrain, o.Ytrain) = TaggedRows(X, Y)
=============================================================================
