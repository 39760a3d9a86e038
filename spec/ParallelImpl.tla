---------------------------- MODULE ParallelImpl ----------------------------
(***************************************************************************)
(* base.Parallelize as it is written: equal chunks of ceil(n/threads), one *)
(* goroutine per non-empty chunk counted in a wait group, an inline call   *)
(* when there is one worker.  TLC checks that every behaviour of this      *)
(* design, under every interleaving, is a behaviour of Parallel.           *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences, TLC
CONSTANTS MaxN, MaxT
VARIABLES n, threads, running, ended, given, returned, \* as in Parallel
          th,      \* next worker to spawn
          spawned, \* goroutines started whose body has not begun
          wg,      \* wait group counter
          spawning

vars == <<n, threads, running, ended, given, returned, th, spawned, wg, spawning>>
Abs == INSTANCE Parallel

Init ==
  /\ \E a \in 0..MaxN, b \in 1..MaxT : Abs!ParInit(a, b)
  /\ th = 0 /\ spawned = {} /\ wg = 0 /\ spawning = TRUE

Per == (n + threads - 1) \div threads
Chunk(k) == [th |-> k, s |-> k * Per, t |-> IF (k + 1) * Per > n THEN n ELSE (k + 1) * Per]

Spawn ==
  /\ spawning
  /\ IF th < threads /\ ~((th + 1) * Per > n /\ n <= th * Per)
     THEN /\ wg' = wg + 1
          /\ spawned' = spawned \cup {Chunk(th)}
          /\ th' = th + 1 /\ UNCHANGED spawning
     ELSE spawning' = FALSE /\ UNCHANGED <<wg, spawned, th>>
  /\ UNCHANGED <<n, threads, running, ended, given, returned>>

BeginCall(c) ==
  /\ c \in spawned
  /\ spawned' = spawned \ {c}
  /\ Abs!Begin(c.th, c.s, c.t)
  /\ UNCHANGED <<th, wg, spawning>>

EndCall(c) ==
  /\ Abs!End(c.th, c.s, c.t)
  /\ wg' = wg - 1
  /\ UNCHANGED <<th, spawned, spawning>>

Wait ==
  /\ ~spawning /\ wg = 0
  /\ returned' = TRUE /\ ~returned
  /\ UNCHANGED <<n, threads, running, ended, given, th, spawned, wg, spawning>>

Next == Spawn \/ Wait \/ (\E c \in spawned : BeginCall(c)) \/ (\E c \in running : EndCall(c))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Inv == Abs!ParInv
\* a spawned chunk can always begin: the abstract guard never blocks the design
NeverBlocked == \A c \in spawned : ENABLED BeginCall(c)
Refines == [][Abs!ParNext]_<<n, threads, running, ended, given, returned>>
Terminates == <>returned
=============================================================================
