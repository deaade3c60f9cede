------------------------------ MODULE PrintText ------------------------------
EXTENDS Naturals, Sequences
(* A program's messages for a stream, in order. *)
For(q, s) == SelectSeq(q, LAMBDA m : m.s = s)
(* The text y is found at o in the text x. *)
Starts(x, y, o) == o + Len(y) <= Len(x) /\ SubSeq(x, o + 1, o + Len(y)) = y
=============================================================================
