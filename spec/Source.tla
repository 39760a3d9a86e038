------------------------------- MODULE Source -------------------------------
(***************************************************************************)
(* Random sources. seqs[s] is the sequence a source seeded with s gives    *)
(* when drawn from alone; a source is a pair (seed, position).             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
Draw(src) == [src EXCEPT !.pos = @ + 1]
Reseed(src, s) == [seed |-> s, pos |-> 0]
=============================================================================
