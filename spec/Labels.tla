------------------------------- MODULE Labels -------------------------------
(***************************************************************************)
(* Label encoders. cfg.kind: "encoder" (codes, acts on Y), "binarizer"     *)
(* (indicators with labels neg/pos, acts on Y), "multi" (one class table   *)
(* for all columns, acts on Y), "onehot" (indicators, acts on X).          *)
(***************************************************************************)
EXTENDS TransHist, FiniteSetsExt, SequencesExt
SetOf(v) == {v[j] : j \in 1..Len(v)}
ClassesOf(v) == SetToSortSeq(SetOf(v), LAMBDA a, b : RLt(a, b))
CountOf(v, x) == Cardinality({j \in 1..Len(v) : v[j] = x})
\* position counted from 1; 0 for a value never seen
PosIn(s, x) == IF x \in SetOf(s) THEN CHOOSE j \in 1..Len(s) : s[j] = x ELSE 0
\* the data an encoder works on
Target(cfg, d) == IF cfg.kind = "onehot" THEN d.X ELSE d.Y
Concat(ss) == FlattenSeq(ss)
Tables(cfg, M) == IF cfg.kind = "multi" THEN LET all == ClassesOf(Concat(M)) IN [j \in 1..Cols(M) |-> all]
                  ELSE [j \in 1..Cols(M) |-> ClassesOf(Col(M, j))]
Neg(cfg) == IF cfg.kind = "binarizer" THEN cfg.neg ELSE R0
Pos(cfg) == IF cfg.kind = "binarizer" THEN IF REq(cfg.neg, cfg.pos) THEN RAdd(cfg.neg, R1) ELSE cfg.pos ELSE R1
Indicator(cfg, table, x) == [c \in 1..Len(table) |-> IF table[c] = x THEN Pos(cfg) ELSE Neg(cfg)]
\* tables of the multi-label binarizer do not depend on the number of columns transformed
TableAt(cfg, tabs, j) == IF cfg.kind = "multi" THEN tabs[1] ELSE tabs[j]
Encode(cfg, tabs, M) ==
  [i \in 1..Len(M) |->
    IF cfg.kind = "encoder" THEN [j \in 1..Len(M[i]) |-> RInt(PosIn(tabs[j], M[i][j]) - 1)]
    ELSE Concat([j \in 1..Len(M[i]) |-> Indicator(cfg, TableAt(cfg, tabs, j), M[i][j])])]
=============================================================================
