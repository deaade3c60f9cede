------------------------------- MODULE Ascii --------------------------------
(* Readable literals for texts that are sequences of code points. *)
EXTENDS Integers, Sequences, TLC
AsciiChars == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
AsciiCode == TLCEval([c \in {SubSeq(AsciiChars, i, i) : i \in 1..Len(AsciiChars)} |->
                31 + (CHOOSE i \in 1..Len(AsciiChars) : SubSeq(AsciiChars, i, i) = c)])
T(str) == [i \in 1..Len(str) |-> AsciiCode[SubSeq(str, i, i)]]

RECURSIVE NatText(_)
NatText(n) == IF n < 10 THEN <<48 + n>> ELSE Append(NatText(n \div 10), 48 + (n % 10))

(* Lexicographic order on sequences of numbers: -1, 0, 1.  For texts this is   *)
(* the order of their UTF-8 bytes.                                             *)
RECURSIVE SeqCmp(_, _, _)
SeqCmp(a, b, i) ==
  IF i > Len(a) /\ i > Len(b) THEN 0
  ELSE IF i > Len(a) THEN -1
  ELSE IF i > Len(b) THEN 1
  ELSE IF a[i] < b[i] THEN -1
  ELSE IF a[i] > b[i] THEN 1
  ELSE SeqCmp(a, b, i + 1)
Cmp(a, b) == SeqCmp(a, b, 1)
=============================================================================
