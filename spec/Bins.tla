-------------------------------- MODULE Bins --------------------------------
(***************************************************************************)
(* The bins discretizer (cfg.nbins, cfg.strategy, cfg.encode) and the row  *)
(* shuffler.                                                               *)
(***************************************************************************)
EXTENDS TransHist
Ceil(x) == -RFloor(RNeg(x))
UniformEdge(v, b, nb) == RAdd(RMinSeq(v), RMul(RDiv(RInt(b), RInt(nb)), RSub(RMaxSeq(v), RMinSeq(v))))
\* the b-th of nb empirical quantiles: the least value whose rank is at least n*b/nb
QuantileEdges(v, b, nb) ==
  LET s == Sorted(v)
      pos == RDiv(RMul(RInt(b), RLen(v)), RInt(nb))
      k == Ceil(pos)
      At(j) == s[IF j < 1 THEN 1 ELSE IF j > Len(s) THEN Len(s) ELSE j]
  IN IF REq(pos, RInt(k)) /\ b > 0 /\ b < nb THEN {At(k), At(k + 1)} ELSE {At(k)}  \* b/nb is rounded in the code
EdgesOK(cfg, v, e) ==
  /\ Len(e) = cfg.nbins + 1
  /\ \A b \in 0..cfg.nbins :
       IF cfg.strategy = "uniform" THEN Near(e[b + 1], UniformEdge(v, b, cfg.nbins)) ELSE e[b + 1] \in QuantileEdges(v, b, cfg.nbins)
\* values below or above the fitted range go to the first or last bin; on an edge, to the bin above it
BinOf(cfg, e, x) == Cardinality({b \in 1..(cfg.nbins - 1) : RLe(e[b + 1], x)})
Cell(cfg, b) == IF cfg.encode = "ordinal" THEN <<RInt(b)>> ELSE [c \in 1..cfg.nbins |-> IF c = b + 1 THEN R1 ELSE R0]
RECURSIVE Cat(_, _)
Cat(f, n) == IF n = 0 THEN <<>> ELSE Cat(f, n - 1) \o f[n]
BinsOf(cfg, e, X) == [i \in 1..Len(X) |-> Cat([j \in 1..Len(X[i]) |-> Cell(cfg, BinOf(cfg, e[j], X[i][j]))], Len(X[i]))]
Middle(e, b) == RMul(RHalf, RAdd(e[b + 1], e[b + 2]))
Middles(cfg, e, X) == [i \in 1..Len(X) |-> [j \in 1..Len(X[i]) |-> Middle(e[j], BinOf(cfg, e[j], X[i][j]))]]
\* the shuffler: rows carry their number in every entry
XRow(i, c) == [j \in 1..c |-> RInt(i * 10 + j)]
YRow(i, c) == [j \in 1..c |-> RInt(100000 + i * 10 + j)]
IsPerm(p, n) == Len(p) = n /\ {p[j] : j \in 1..n} = 1..n
Numbers(M, n, c) == [i \in 1..Len(M) |-> CHOOSE q \in 1..n : M[i] = XRow(q, c)]
=============================================================================
