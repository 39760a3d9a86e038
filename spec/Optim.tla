------------------------------- MODULE Optim -------------------------------
\* The definitions of OptimDefs, with the judge of recorded histories.
EXTENDS OptimDefs, HistJudge
=============================================================================
