----------------------------- MODULE HistJudge -----------------------------
(***************************************************************************)
(* TLC judges recorded histories. A record holds a sequence of operations  *)
(* (in.ops) and the result of each (out.res). The specification gives the  *)
(* abstract state after each operation (StepNext, from the operation's     *)
(* inputs alone) and which results the state allows (StepOK). One TLC      *)
(* state per operation; a record is accepted when every step is allowed.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Reals, Json, IOUtils, TLC
CONSTANTS InitSt(_), StepOK(_, _, _), StepNext(_, _)
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLES vRec, vStep, vSt
Ops == Trace[vRec].in.ops
Allowed == Guarded(StepOK(vSt, Ops[vStep+1], Trace[vRec].out.res[vStep+1]))
Init == \E i \in 1..Len(Trace) : vRec = i /\ vStep = 0 /\ vSt = InitSt(Trace[i].in)
Next == /\ vStep >= 0 /\ vRec' = vRec
        /\ IF vStep < Len(Ops) /\ Allowed
           THEN vStep' = vStep + 1 /\ vSt' = StepNext(vSt, Ops[vStep+1])
           ELSE /\ PrintT(<<"V", vRec, vStep = Len(Ops) /\ Guarded(Len(Trace[vRec].out.res) = Len(Ops)), vStep>>)
                /\ vStep' = -1 /\ vSt' = vSt
=============================================================================
