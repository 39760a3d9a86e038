------------------------------ MODULE Scalers ------------------------------
(***************************************************************************)
(* The affine map of each scaler from the column of values it has seen.    *)
(* cfg.kind: "minmax" (lo, hi), "standard" (mean, std), "robust" (center,  *)
(* scale, ql, qr), "maxabs".                                               *)
(***************************************************************************)
EXTENDS TransHist
ColVar(v) == LET m == RMean(v) IN RMean([j \in 1..Len(v) |-> RSq(RSub(v[j], m))])
Const(v) == \A j \in 1..Len(v) : v[j] = v[1]
\* the empirical quantile: the least element whose rank is at least p*n
Ceil(x) == -RFloor(RNeg(x))
Quantile(v, p) == LET k == Ceil(RMul(p, RLen(v))) IN Sorted(v)[IF k < 1 THEN 1 ELSE k]
MaxMag(v) == RMaxSeq([j \in 1..Len(v) |-> RAbs(v[j])])
OneIfZero(x) == IF REq(x, R0) THEN R1 ELSE x
\* x -> (x - shift) / scale + offset
Affine(cfg, v) ==
  CASE cfg.kind = "minmax" ->
         LET range == OneIfZero(RSub(RMaxSeq(v), RMinSeq(v)))
         IN [shift |-> RMinSeq(v), scale |-> RDiv(range, RSub(cfg.hi, cfg.lo)), offset |-> cfg.lo]
    [] cfg.kind = "standard" ->
         [shift |-> IF cfg.mean THEN RMean(v) ELSE R0,
          scale |-> IF cfg.std /\ ~Const(v) THEN RSqrt(ColVar(v)) ELSE R1, offset |-> R0]
    [] cfg.kind = "robust" ->
         [shift |-> IF cfg.center THEN Quantile(v, RHalf) ELSE R0,
          scale |-> IF cfg.scale THEN OneIfZero(RSub(Quantile(v, cfg.qr), Quantile(v, cfg.ql))) ELSE R1, offset |-> R0]
    [] cfg.kind = "maxabs" -> [shift |-> R0, scale |-> OneIfZero(MaxMag(v)), offset |-> R0]
Maps(cfg, X) == [j \in 1..Cols(X) |-> Affine(cfg, Col(X, j))]
Apply(maps, X) == [i \in 1..Len(X) |-> [j \in 1..Len(X[i]) |->
                     RAdd(RDiv(RSub(X[i][j], maps[j].shift), maps[j].scale), maps[j].offset)]]
Undo(maps, X) == [i \in 1..Len(X) |-> [j \in 1..Len(X[i]) |->
                     RAdd(RMul(RSub(X[i][j], maps[j].offset), maps[j].scale), maps[j].shift)]]
=============================================================================
