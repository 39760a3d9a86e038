----------------------------- MODULE GridSearch -----------------------------
(***************************************************************************)
(* Grid search over a parameter grid: names is the sequence of parameter   *)
(* names, values[j] the values of the j-th. A combination is a sequence of *)
(* values, one per name.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Reals
RngG(s) == {s[j] : j \in 1..Len(s)}
Combos(values) == {c \in [1..Len(values) -> UNION {RngG(values[j]) : j \in 1..Len(values)}] :
                     \A j \in 1..Len(values) : c[j] \in RngG(values[j])}
FoldScores(table, c) == (CHOOSE t \in RngG(table) : t.c = c).s
ScoreOf(table, c) == RMean(FoldScores(table, c))
BetterS(lower, a, b) == IF lower THEN RLt(a, b) ELSE RLt(b, a)
\* a \in results: [c |-> combination, s |-> reported mean score]
GridOK(values, table, lower, nf, o) ==
  /\ Len(o.results) = Cardinality(Combos(values))
  /\ {o.results[j].c : j \in 1..Len(o.results)} = Combos(values)
  /\ \A j \in 1..Len(o.results) : Near(o.results[j].s, ScoreOf(table, o.results[j].c))
  /\ o.bestIndex \in 0..(Len(o.results) - 1)
  /\ LET b == o.results[o.bestIndex + 1] IN
       /\ o.bestParams = b.c /\ o.bestScore = b.s
       /\ \A j \in 1..Len(o.results) : ~BetterS(lower, o.results[j].s, b.s)
       /\ o.bestEst = b.c               \* the retained estimator carries the winning parameters
       /\ o.bestFitted
       /\ LET t == FoldScores(table, b.c)  \* fitted on the split that scored best
          IN o.bestFold \in 1..Len(t) /\ \A f \in 1..Len(t) : ~BetterS(lower, t[f], t[o.bestFold])
       /\ o.answered = b.c              \* and it is the one that answers predictions
  \* every combination is fitted exactly once per fold, on its own clone
  /\ Len(o.fits) = nf * Cardinality(Combos(values))
  /\ \A c \in Combos(values), f \in 1..nf :
       Cardinality({j \in 1..Len(o.fits) : o.fits[j].c = c /\ o.fits[j].f = f}) = 1
  /\ \A a, b \in 1..Len(o.fits) : a # b => o.fits[a].id # o.fits[b].id
  /\ \A j \in 1..Len(o.fits) : o.fits[j].id # 0 /\ o.fits[j].rest
  /\ o.given
\* every combination is fitted on the same folds, whatever the splitter draws
FoldsOf(o, c) == SelectSeq(o.folds, LAMBDA e : e.c = c)
TimesIn(s, t) == Cardinality({j \in 1..Len(s) : s[j].train = t})
SameFoldsOK(values, k, o) ==
  /\ {o.folds[j].c : j \in 1..Len(o.folds)} = Combos(values)
  /\ \A c \in Combos(values) : Len(FoldsOf(o, c)) = k
  /\ LET first == FoldsOf(o, o.folds[1].c)
     IN \A c \in Combos(values) : \A j \in 1..k : TimesIn(FoldsOf(o, c), first[j].train) = TimesIn(first, first[j].train)
=============================================================================
