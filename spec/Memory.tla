------------------------------- MODULE Memory -------------------------------
(***************************************************************************)
(* What a call may do to memory. Memory is a set of buffers of cells; a    *)
(* matrix denotes a window of a buffer. A call reads the windows of its    *)
(* arguments and, when given a receiver, writes that window; its answer is *)
(* a function of the values it reads, whatever buffers and windows they    *)
(* lie in. So, of a call [before, after, recv, outs]:                      *)
(*  - every buffer holding an argument is afterwards as it was before;     *)
(*  - the receiver's buffer changed only inside its window, which now      *)
(*    holds the answer;                                                    *)
(*  - the answers are those of the same call on other windows.             *)
(***************************************************************************)
EXTENDS Judge
Untouched(call) == /\ Len(call.before) = Len(call.after)
                   /\ \A b \in 1..Len(call.before) : call.before[b] = call.after[b]
Inside(recv, i, j) == /\ i > recv.r0 /\ i <= recv.r0 + Len(recv.answer)
                      /\ j > recv.c0 /\ j <= recv.c0 + Len(recv.answer[1])
WroteItsWindow(recv) ==
  recv.kind # "nil" =>
    /\ Len(recv.before) = Len(recv.after)
    /\ \A i \in 1..Len(recv.before) : \A j \in 1..Len(recv.before[i]) :
         recv.after[i][j] = IF Inside(recv, i, j) THEN recv.answer[i - recv.r0][j - recv.c0] ELSE recv.before[i][j]
SameAnswer(a, b, eps) == /\ Len(a) = Len(b)
                         /\ \A m \in 1..Len(a) : RCloseAll(a[m], b[m], eps)
CallOK(ref, got, eps) == /\ Untouched(ref) /\ Untouched(got)
                         /\ WroteItsWindow(got.recv)
                         /\ SameAnswer(ref.outs, got.outs, eps)
=============================================================================
