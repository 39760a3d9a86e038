--------------------------- MODULE SplitterTrace ---------------------------
EXTENDS Splitter, Judge
\* default number of folds
K(r) == IF r.in.k <= 0 THEN 3 ELSE r.in.k
AcceptRecord(r) ==
  CASE r.op = "kfold" ->
         /\ ValidKFold(r.in.n, K(r), r.out.splits)
         /\ r.out.nsplits = K(r)
         /\ r.out.again = r.out.splits      \* same seed, same splits
         /\ r.out.clone = r.out.splits      \* a clone splits as its original would have
         /\ ValidKFold(r.in.n, K(r), r.out.next)  \* a second round on the same splitter
         /\ r.out.nextclone = r.out.next    \* ... is what a clone taken in between gives
    [] r.op = "kfold_cover" -> Covers(r.in.n, r.out.splits)
    [] r.op = "tts" ->
         /\ ValidTTS(r.in.X, r.in.Y, r.in.ts, r.out)
         /\ r.out.again
         /\ r.out.Xafter = r.in.X /\ r.out.Yafter = r.in.Y
=============================================================================
