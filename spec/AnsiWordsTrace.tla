--------------------------- MODULE AnsiWordsTrace ---------------------------
(* Recorded values of macro calls, and of the colour type by number.           *)
EXTENDS AnsiWords, Json
CONSTANT File
Obs == JsonDeserialize(File)
VARIABLE pos
Lanes == 8
Want(o) == IF o.k = "color" THEN ColorSeq(o.n) ELSE Content(o)
\* A colour equals its own number only, from either side and as a colour, and
\* comes after the smaller ones.
Alone(o) == o.k = "color" => /\ \A e \in 1..Len(o.eq) : o.eq[e] = <<o.n>>
                             /\ o.below = [i \in 1..o.n |-> i - 1]
Check(k) == IF Obs[k].r = Want(Obs[k]) /\ Alone(Obs[k]) THEN TRUE ELSE PrintT("BAD " \o ToJson([i |-> k, want |-> Want(Obs[k])]))
Init == pos \in 1..Lanes
Next == pos <= Len(Obs) /\ Check(pos) /\ pos' = pos + Lanes
Spec == Init /\ [][Next]_pos
=============================================================================
