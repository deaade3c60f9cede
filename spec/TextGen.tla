------------------------------ MODULE TextGen -------------------------------
(* Every text over a small alphabet up to a length, one state each; checks the *)
(* properties of the text operators and prints the expected results as JSON    *)
(* vectors for the implementation.                                             *)
EXTENDS Ansi, Json

CONSTANTS MaxLen, MaxW, Alphabet, Mode   \* Mode: "strip", "width", "fit"

(* Display widths of the alphabet (checked against the code's own table by the driver). *)
CwOf(c) == CASE c \in {ESC, BEL, LF, CR, 769} -> 0
             [] c = 28450 -> 2
             [] OTHER -> 1

VARIABLE txt

Init == txt = <<>>
Next == Len(txt) < MaxLen /\ \E c \in Alphabet : txt' = Append(txt, c)

CwS == [i \in 1..Len(txt) |-> CwOf(txt[i])]

Vector ==
  IF Mode = "strip"
  THEN [s |-> txt, r |-> Strip(txt)]
  ELSE IF Mode = "width"
  THEN [s |-> txt, n |-> Width(txt, CwS), c |-> [w \in 1..(MaxW+1) |-> Bytes(txt, Cut(txt, CwS, w-1))]]
  ELSE [s |-> txt, f |-> [w \in 1..(MaxW+1) |-> Fit(txt, CwS, w-1)]]

Sound ==
  /\ Mode = "strip" => StripSound(txt)
  /\ Mode = "width" => WidthSound(txt, CwS) /\ \A w \in 0..MaxW : CutSound(txt, CwS, w)
  /\ Mode = "fit" => \A w \in 0..MaxW : FitSound(txt, CwOf, w)

Emit == PrintT("V " \o ToJson(Vector))

Spec == Init /\ [][Next]_txt
=============================================================================
