------------------------------- MODULE Judge -------------------------------
(***************************************************************************)
(* TLC judges records of the real code. A record is [op, in, out]; a trace *)
(* module defines AcceptRecord, which says whether the record is allowed   *)
(* by the specification. A record that cannot even be evaluated (a missing *)
(* field, e.g. because the call panicked) is rejected.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Reals, Json, IOUtils, TLC
CONSTANT Accept(_)
Trace == ndJsonDeserialize(IOEnv.VERIF_TRACE)
VARIABLE vRec
Chains == 32
Init == vRec \in 1..Chains
Next == /\ vRec <= Len(Trace)
        /\ PrintT(<<"V", vRec, Guarded(Accept(Trace[vRec]))>>)
        /\ vRec' = vRec + Chains
=============================================================================
