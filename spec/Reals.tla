------------------------------- MODULE Reals -------------------------------
(***************************************************************************)
(* Real arithmetic for the specifications of pa-m/sklearn.                 *)
(*                                                                         *)
(* TLC has 32-bit integers only, so a real number is represented by the    *)
(* string "p/q" (or "p") of an exact rational, or "nan", "inf", "-inf".    *)
(* The operators below are given meaning by java/Reals.java (exact big     *)
(* integers; values with denominators beyond 400 bits are rounded to 256   *)
(* significant bits; transcendental functions are correctly rounded to     *)
(* about one unit in the last place of a double).                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
LOCAL Undefined == CHOOSE x : x \notin {}

RInt(n) == Undefined        \* an integer (or a real) as a real
RAdd(a, b) == Undefined
RSub(a, b) == Undefined
RMul(a, b) == Undefined
RDiv(a, b) == Undefined
RNeg(a) == Undefined
RAbs(a) == Undefined
RLe(a, b) == Undefined      \* FALSE when an argument is nan
RLt(a, b) == Undefined
REq(a, b) == Undefined
RFinite(a) == Undefined
RFloor(a) == Undefined      \* an integer
RSum(s) == Undefined        \* sum of a sequence of reals
RDot(s, t) == Undefined
RMaxSeq(s) == Undefined
RMinSeq(s) == Undefined
RClose(a, b, tol) == Undefined    \* |a-b| <= tol*max(1,|a|,|b|)
RCloseAll(a, b, tol) == Undefined \* RClose elementwise, same shape
RSqrt(a) == Undefined
RExp(a) == Undefined
RLn(a) == Undefined
RTanh(a) == Undefined
RPow(a, b) == Undefined
RMatMul(A, B) == Undefined
Guarded(e) == e             \* FALSE when e cannot be evaluated

R0 == "0"
R1 == "1"
RHalf == "1/2"
RMax(a, b) == IF RLe(a, b) THEN b ELSE a
RMin(a, b) == IF RLe(a, b) THEN a ELSE b
RSq(a) == RMul(a, a)
RGe(a, b) == RLe(b, a)
RGt(a, b) == RLt(b, a)
RSign(a) == IF RLt(R0, a) THEN "1" ELSE IF RLt(a, R0) THEN "-1" ELSE "0"
RLen(s) == RInt(Len(s))
RMean(s) == RDiv(RSum(s), RLen(s))

(* Sequences of reals and matrices (sequences of rows). *)
Map(s, f(_)) == TLCEval([i \in 1..Len(s) |-> f(s[i])])
SumOver(n, f(_)) == RSum([i \in 1..n |-> f(i)])
Rows(M) == Len(M)
Cols(M) == IF Len(M) = 0 THEN 0 ELSE Len(M[1])
Col(M, j) == TLCEval([i \in 1..Len(M) |-> M[i][j]])
Transpose(M) == TLCEval([j \in 1..Cols(M) |-> Col(M, j)])
IsMatrix(M, r, c) == Len(M) = r /\ \A i \in 1..r : Len(M[i]) = c
VAdd(u, v) == TLCEval([i \in 1..Len(u) |-> RAdd(u[i], v[i])])
VSub(u, v) == TLCEval([i \in 1..Len(u) |-> RSub(u[i], v[i])])
VScale(a, u) == TLCEval([i \in 1..Len(u) |-> RMul(a, u[i])])
SqDist(u, v) == LET d == VSub(u, v) IN RDot(d, d)
Norm2(u) == RSqrt(RDot(u, u))
MatVec(M, v) == TLCEval([i \in 1..Len(M) |-> RDot(M[i], v)])
AllFinite(s) == \A i \in 1..Len(s) : RFinite(s[i])
MatFinite(M) == \A i \in 1..Len(M) : AllFinite(M[i])
Tol == "1/10000000"         \* 1e-7, the default comparison tolerance
Near(a, b) == RClose(a, b, Tol)
NearAll(a, b) == RCloseAll(a, b, Tol)
=============================================================================
