---------------------------- MODULE SourceTrace ----------------------------
EXTENDS Source, HistJudge, FiniteSetsExt
Find(s, x) == CHOOSE j \in 1..Len(s) : s[j] = x
Increasing(s) == \A j \in 1..(Len(s) - 1) : s[j] < s[j+1]
\* in.ref: sequence of [seed, vals]
SumRuns(S) == FoldSet(LAMBDA p, a : a + (p[2] - p[1] + 1), 0, S)
RefOf(ref, seed) == (CHOOSE j \in 1..Len(ref) : ref[j].seed = seed)
TheInit(in) == [ref |-> in.ref, src |-> <<>>]
TheNext(s, op) ==
  CASE op.o = "new" -> [s EXCEPT !.src = Append(@, [seed |-> op.seed, pos |-> 0])]
    [] op.o = "draw" -> [s EXCEPT !.src[op.s] = Draw(@)]
    [] op.o = "seed" -> [s EXCEPT !.src[op.s] = Reseed(@, op.seed)]
    [] op.o = "clone" -> [s EXCEPT !.src = Append(@, s.src[op.s])]
    [] op.o = "conc" -> [s EXCEPT !.src[op.s] = [@ EXCEPT !.pos = @ + op.n * op.workers]]
    [] OTHER -> s
Val(s, j, n) == LET q == s.src[j] IN s.ref[RefOf(s.ref, q.seed)].vals[q.pos + n]
TheOK(s, op, r) ==
  CASE op.o = "draw" -> r.v = Val(s, op.s, 1)
    \* workers drawing at once: each value of the next n*workers exactly once, each worker in order;
    \* clones taken meanwhile continue from some point of the sequence
    [] op.o = "conc" ->
         LET total == op.n * op.workers
             q == s.src[op.s]
             vals == SubSeq(s.ref[RefOf(s.ref, q.seed)].vals, q.pos + 1, q.pos + total)
             drawn == UNION {{r.got[w][j] : j \in 1..op.n} : w \in 1..op.workers}
         IN /\ Len(r.got) = op.workers /\ \A w \in 1..op.workers : Len(r.got[w]) = op.n
            /\ drawn = {vals[j] : j \in 1..total}
            /\ Cardinality(drawn) = total
            /\ \A w \in 1..op.workers : Increasing([j \in 1..op.n |-> Find(vals, r.got[w][j])])
            /\ \A j \in 1..Len(r.clones) :
                 \E p \in q.pos..(q.pos + total) :
                    r.clones[j] = SubSeq(s.ref[RefOf(s.ref, q.seed)].vals, p + 1, p + Len(r.clones[j]))
    \* as above, with one goroutine reseeding meanwhile: before it the old sequence, after it the new one
    [] op.o = "concseed" ->
         LET total == op.n * op.workers
             q == s.src[op.s]
             Old(m) == {s.ref[RefOf(s.ref, q.seed)].vals[q.pos + j] : j \in 1..m}
             New(m) == {s.ref[RefOf(s.ref, op.seed)].vals[j] : j \in 1..m}
             drawn == UNION {{r.got[w][j] : j \in 1..op.n} : w \in 1..op.workers}
         IN /\ Len(r.got) = op.workers /\ \A w \in 1..op.workers : Len(r.got[w]) = op.n
            /\ \E m \in 0..total : drawn = Old(m) \cup New(total - m)
    \* a storm of draws and clonings, in positions of the sequence: the workers' runs are increasing and together
    \* give every position once; every clone continues from some position
    [] op.o = "storm" ->
         LET total == op.n * op.workers
             Runs == {<<w, j>> : w \in 1..op.workers, j \in 1..op.n} \cap {<<w, j>> \in (1..op.workers) \X (1..op.n) : j <= Len(r.runs[w])}
             Spots == {r.runs[x[1]][x[2]] : x \in Runs}
         IN /\ Len(r.runs) = op.workers
            /\ \A w \in 1..op.workers : \A j \in 1..Len(r.runs[w]) :
                 r.runs[w][j][1] > (IF j = 1 THEN 0 ELSE r.runs[w][j-1][2]) /\ r.runs[w][j][1] <= r.runs[w][j][2]
            /\ Cardinality(Spots) = Cardinality(Runs)
            /\ UNION {p[1]..p[2] : p \in Spots} = 1..total
            /\ SumRuns(Spots) = total
            /\ \A j \in 1..Len(r.clones) :
                 LET p == r.clones[j][1] IN p \in 1..(total + 1) /\ r.clones[j] = <<p, p + 1, p + 399, p + 699>>
    \* a long run: the lock-protected source and its clone give the sequence of the plain one
    [] op.o = "long" ->
         /\ Len(r.plain) = op.n \div 5000 /\ r.locked = r.plain
         /\ Len(r.clone) > 0 /\ r.clone = SubSeq(r.plain, Len(r.plain) - Len(r.clone) + 1, Len(r.plain))
    [] OTHER -> TRUE
=============================================================================
