--------------------------- MODULE AdaptersTrace ---------------------------
EXTENDS HistJudge, Adapters
TheInit(in) == in.store
TheNext(st, op) ==
  CASE op.name = "set" -> WriteCell(op.t, st, op.i, op.j, op.v)
    [] op.name = "from" -> WriteAll(op.t, st, op.M)
    [] OTHER -> st
SameMat(A, B) == Dim(A) = Dim(B) /\ \A i \in 1..Len(A) : \A j \in 1..Cols(A) : REq(A[i][j], B[i][j])
TheOK(st, op, r) ==
  /\ SameMat(r.store, TheNext(st, op))
  /\ CASE op.name = "read" -> r.dims = DimsOf(op.t, Dim(st)) /\ SameMat(r.cells, ReadAll(op.t, st))
       [] op.name = "dense" -> SameMat(r.cells, ReadAll(op.t, st))
       [] op.name = "set" -> SameMat(r.cells, ReadAll(op.t, TheNext(st, op)))
       [] op.name = "from" -> SameMat(r.ret, op.M) /\ SameMat(r.cells, ReadAll(op.t, TheNext(st, op)))
       [] op.name = "fromempty" -> SameMat(r.ret, op.M) /\ SameMat(r.cells, op.M) /\ SameMat(r.none, op.M)
       [] op.name = "again" -> SameMat(r.cells, ReadAll(op.t, st))
       [] op.name = "outside" -> r.refused
       [] op.name = "str" -> SameMat(r.cells, Beside([k \in 1..Len(op.ts) |-> ReadAll(op.ts[k], st)]))
       [] op.name = "fit" -> r.ok = DimsFit(op.sym, op.r, op.x, op.y)
=============================================================================
