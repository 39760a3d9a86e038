------------------------------- MODULE Losses -------------------------------
\* The definitions of LossesDefs, with the judge of recorded calls.
EXTENDS LossesDefs, Judge
=============================================================================
