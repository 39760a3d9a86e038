---------------------------- MODULE MemoryTrace ----------------------------
EXTENDS Memory
AcceptRecord(r) == /\ Len(r.out.res) = Len(r.in.ops)
                   /\ \A i \in 1..Len(r.in.ops) : CallOK(r.out.res[i].ref, r.out.res[i].got, r.in.eps)
=============================================================================
