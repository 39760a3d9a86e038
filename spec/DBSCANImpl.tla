----------------------------- MODULE DBSCANImpl -----------------------------
(***************************************************************************)
(* The labelling loop of cluster/dbscan.go (scan nodes in order; from each *)
(* unlabelled core node a depth-first search with a stack that labels but  *)
(* does not expand non-core nodes), on every symmetric graph of 4 nodes    *)
(* with every set of core nodes: it ends, and ends in a valid labelling.   *)
(***************************************************************************)
EXTENDS DBSCAN, SequencesExt, TLC
n == 4
Nodes == 1..n
Edges == {e \in SUBSET Nodes : Cardinality(e) = 2}
VARIABLES N, core, lab, stack, scan, label
vars == << N, core, lab, stack, scan, label >>
Init == /\ \E E \in SUBSET Edges : N = [i \in Nodes |-> {i} \cup {j \in Nodes : {i, j} \in E}]
        /\ core \in SUBSET Nodes /\ lab = [i \in Nodes |-> -1] /\ stack = <<>> /\ scan = 1 /\ label = 0
\* neighbours are pushed in some order
Orders(S) == {s \in [1..Cardinality(S) -> S] : \A a, b \in 1..Cardinality(S) : a # b => s[a] # s[b]}
Visit(i, rest) ==
  IF lab[i] # -1 THEN lab' = lab /\ stack' = rest
  ELSE LET lab2 == [lab EXCEPT ![i] = label]
       IN lab' = lab2 /\ (IF i \in core THEN \E o \in Orders({j \in N[i] : lab2[j] = -1}) : stack' = rest \o o ELSE stack' = rest)
Next == /\ scan <= n /\ UNCHANGED << N, core >>
        /\ IF stack # <<>> THEN Visit(Last(stack), Front(stack)) /\ UNCHANGED << scan, label >>
           ELSE IF lab[scan] = label THEN scan' = scan + 1 /\ label' = label + 1 /\ UNCHANGED << lab, stack >>
           ELSE IF lab[scan] # -1 \/ scan \notin core THEN scan' = scan + 1 /\ UNCHANGED << lab, stack, label >>
           ELSE Visit(scan, <<>>) /\ UNCHANGED << scan, label >>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Valid == scan > n => ValidLabels(n, N, core, lab)
Ends == <>(scan > n)
=============================================================================
