--------------------------- MODULE AnsiWordsGraph ---------------------------
(* All lists of words: of one word over all, of more over the alphabets.       *)
EXTENDS AnsiWords, Json
CONSTANTS Two, Three      \* alphabets (sequences of words) for lists of up to two, up to three words
VARIABLE ws
Set2(s) == {s[i] : i \in 1..Len(s)}
Init == ws = << >>
Next == \/ ws = << >> /\ \E k \in AllWords : ws' = <<k>>
        \/ Len(ws) = 1 /\ ws[1] \in Set2(Two) /\ \E k \in Set2(Two) : ws' = Append(ws, k)
        \/ Len(ws) = 2 /\ \A i \in 1..2 : ws[i] \in Set2(Three) /\ \E k \in Set2(Three) : ws' = Append(ws, k)
Spec == Init /\ [][Next]_ws

Seps(s) == Cardinality({i \in 1..Len(s) : s[i] = 59})
RECURSIVE Inner(_, _)
Inner(l, i) == IF i > Len(l) THEN 0 ELSE Seps(Word(l[i])) + Inner(l, i + 1)
Sound == LET c == Csi(ws) IN
  /\ SubSeq(c, 1, 2) = CSI /\ c[Len(c)] = 109
  /\ \A i \in 3..(Len(c) - 1) : c[i] \in 48..57 \cup {59}
  /\ Seps(c) = Inner(ws, 1) + (IF ws = << >> THEN 0 ELSE Len(ws) - 1)
Emit == PrintT("V " \o ToJson([ws |-> ws, r |-> Csi(ws)]))
=============================================================================
