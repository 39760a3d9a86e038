----------------------------- MODULE Adapters ------------------------------
(***************************************************************************)
(* Matrix adapters as terms over one stored matrix. A term denotes, for    *)
(* each of its cells, either a stored cell <<p, q>> or a constant.         *)
(* Reading goes through that denotation; writing changes exactly that      *)
(* stored cell.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Reals
RECURSIVE DimsOf(_, _)
DimsOf(t, d) ==    \* d: dimensions of the stored matrix
  CASE t.k = "base" -> d
    [] t.k = "const" -> <<t.r, t.c>>
    [] t.k \in {"tr", "T"} -> LET x == DimsOf(t.a, d) IN <<x[2], x[1]>>
    [] t.k = "rows" \/ t.k = "drows" -> <<t.e - t.s, DimsOf(t.a, d)[2]>>
    [] t.k = "dcols" -> <<DimsOf(t.a, d)[1], t.l - t.j>>
    [] t.k = "dslice" -> <<t.e - t.s, t.l - t.j>>
    [] t.k = "ones" -> LET x == DimsOf(t.a, d) IN <<x[1], x[2] + 1>>
RECURSIVE CellOf(_, _, _)
CellOf(t, i, j) == \* 1-based; [const |-> v] or [at |-> <<p, q>>]
  CASE t.k = "base" -> [c |-> FALSE, at |-> <<i, j>>]
    [] t.k = "const" -> [c |-> TRUE, v |-> t.v]
    [] t.k \in {"tr", "T"} -> CellOf(t.a, j, i)
    [] t.k = "rows" \/ t.k = "drows" -> CellOf(t.a, i + t.s, j)
    [] t.k = "dcols" -> CellOf(t.a, i, j + t.j)
    [] t.k = "dslice" -> CellOf(t.a, i + t.s, j + t.j)
    [] t.k = "ones" -> IF j = 1 THEN [c |-> TRUE, v |-> R1] ELSE CellOf(t.a, i, j - 1)
Dim(M) == <<Len(M), Cols(M)>>
ReadCell(t, st, i, j) == LET c == CellOf(t, i, j) IN IF c.c THEN c.v ELSE st[c.at[1]][c.at[2]]
ReadAll(t, st) == LET d == DimsOf(t, Dim(st)) IN [i \in 1..d[1] |-> [j \in 1..d[2] |-> ReadCell(t, st, i, j)]]
WriteCell(t, st, i, j, v) == LET c == CellOf(t, i, j) IN [st EXCEPT ![c.at[1]][c.at[2]] = v]
\* writing a whole matrix through a term
WriteAll(t, st, M) ==
  LET d == DimsOf(t, Dim(st))
      hit(p, q) == {<<i, j>> \in (1..d[1]) \X (1..d[2]) : CellOf(t, i, j).at = <<p, q>>}
  IN [p \in 1..Len(st) |-> [q \in 1..Cols(st) |-> LET h == hit(p, q) IN IF h = {} THEN st[p][q] ELSE LET x == CHOOSE x \in h : TRUE IN M[x[1]][x[2]]]]
\* shapes fit an operation
DimsFit(op, r, x, y) == IF op = "." THEN x[2] = y[1] /\ r[1] = x[1] /\ r[2] = y[2] ELSE x = y /\ r = x
RECURSIVE Beside(_)
Beside(ms) == IF Len(ms) = 1 THEN ms[1] ELSE LET rest == Beside(Tail(ms)) IN [i \in 1..Len(ms[1]) |-> ms[1][i] \o rest[i]]
=============================================================================
