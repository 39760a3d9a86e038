------------------------------ MODULE Parallel ------------------------------
(***************************************************************************)
(* What a parallel-for over [0, n) with a bound on workers must look like  *)
(* from outside, whatever the schedule: calls to the body get ranges that  *)
(* are disjoint, calls that overlap in time have different worker numbers, *)
(* and the parallel-for returns only after every index has been handed out *)
(* and every call has ended.                                               *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences

VARIABLES n,        \* number of indices
          threads,  \* requested workers; <= 0 leaves the number to the library
          running,  \* calls of the body in progress: [th, s, t]
          ended,    \* number of indices in calls that have ended
          given,    \* non-empty ranges handed out so far: [s, t]
          returned

parVars == <<n, threads, running, ended, given, returned>>

ParInit(nn, tt) ==
  /\ n = nn /\ threads = tt
  /\ running = {} /\ ended = 0 /\ given = {} /\ returned = FALSE

Overlap(a, b) == a.s < b.t /\ b.s < a.t

Begin(th, s, t) ==
  /\ ~returned
  /\ 0 <= s /\ s <= t /\ t <= n
  /\ th >= 0 /\ (threads > 0 => th < threads)
  /\ \A r \in running : r.th # th
  /\ s # t => (\A g \in given : ~Overlap(g, [s |-> s, t |-> t]))
  /\ running' = running \cup {[th |-> th, s |-> s, t |-> t]}
  /\ given' = IF s = t THEN given ELSE given \cup {[s |-> s, t |-> t]}
  /\ UNCHANGED <<n, threads, ended, returned>>

End(th, s, t) ==
  /\ ~returned
  /\ [th |-> th, s |-> s, t |-> t] \in running
  /\ running' = running \ {[th |-> th, s |-> s, t |-> t]}
  /\ ended' = ended + (t - s)
  /\ UNCHANGED <<n, threads, given, returned>>

Return ==
  /\ ~returned /\ running = {} /\ ended = n
  /\ returned' = TRUE
  /\ UNCHANGED <<n, threads, running, ended, given>>

ParNext ==
  \/ \E th \in 0..8, s \in 0..n, t \in 0..n : Begin(th, s, t) \/ End(th, s, t)
  \/ Return

ParInv ==
  /\ \A a, b \in given : a = b \/ ~Overlap(a, b)
  /\ ended <= n
  /\ returned => /\ running = {}
                 /\ \A i \in 0..(n-1) : Cardinality({g \in given : g.s <= i /\ i < g.t}) = 1
=============================================================================
