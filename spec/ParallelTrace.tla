--------------------------- MODULE ParallelTrace ---------------------------
(* Recorded calls of the real parallel-for, replayed as steps of Parallel. *)
EXTENDS Parallel, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES c, k
vars == <<parVars, c, k>>
Ev == IF "ev" \in DOMAIN Trace[c].out THEN Trace[c].out.ev ELSE <<>>
Init == \E i \in 1..Len(Trace) : c = i /\ k = 0 /\ ParInit(Trace[i].in.n, Trace[i].in.threads)
Match == /\ k >= 0 /\ k < Len(Ev)
         /\ LET e == Ev[k+1] IN
              \/ e.e = "begin" /\ Begin(e.th, e.s, e.t)
              \/ e.e = "end" /\ End(e.th, e.s, e.t)
              \/ e.e = "return" /\ Return
         /\ k' = k + 1 /\ c' = c
Verdict == /\ k >= 0 /\ ~ENABLED Match
           /\ PrintT(<<"V", c, k = Len(Ev) /\ returned, k>>)
           /\ k' = -1 /\ UNCHANGED <<parVars, c>>
Next == Match \/ Verdict
\* the invariant of the abstract specification is implied by the guards; TLC evaluates it anyway
Inv == n <= 50 => ParInv
=============================================================================
