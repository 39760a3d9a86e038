----------------------------- MODULE OptimTrace -----------------------------
EXTENDS Optim
TheInit(in) == Start(in.c, in.theta)
TheNext(st, op) ==
  CASE op.o = "update" -> LET x == Step(st, op.g) IN [x.s EXCEPT !.theta = AddM(st.theta, x.up)]
    [] op.o = "get" -> Step(st, op.g).s
    [] op.o = "theta" -> [st EXCEPT !.theta = op.g]
\* numbers near zero are as exact as others: errors are small against the largest number around
RowMax(v) == RMaxSeq(Map(v, RAbs))
Largest(Ms) == RMaxSeq([i \in 1..Len(Ms) |-> RMaxSeq(Map(Ms[i], RowMax))])
FineAll(A, C, size) == LET tol == RAdd(RMul("1/1000000", size), "1/1000000000000000") IN
  \A j \in 1..Len(A) : \A o \in 1..Len(A[j]) : RLe(RAbs(RSub(A[j][o], C[j][o])), tol)
TheOK(st, op, r) ==
  LET n == TheNext(st, op)
  IN /\ NearAll(r.theta, n.theta) /\ r.t = n.t
     /\ FineAll(r.theta, n.theta, Largest(<<st.theta, n.theta, n.prev>>))
     /\ op.o = "get" => NearAll(r.up, n.prev)
     /\ r.outside          \* nothing but the parameters was written
=============================================================================
