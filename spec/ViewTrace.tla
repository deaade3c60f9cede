----------------------------- MODULE ViewTrace ------------------------------
(* Recorded views and comparisons of messages.  a and b are the texts of the   *)
(* messages (or of the compared string), known to the model.                   *)
EXTENDS Ansi, Ascii, Json
CONSTANT File
Obs == JsonDeserialize(File)
VARIABLE pos
Lanes == 8
Good(o) ==
  CASE o.k = "views" -> /\ \A x \in 1..Len(o.texts) : o.texts[x] = o.a
                        /\ o.len = Bytes(o.a, Len(o.a))
                        /\ o.empty = (o.a = <<>>)
    [] o.k = "cmp" -> LET e == (o.a = o.b) IN
                        /\ \A x \in 1..Len(o.eq) : o.eq[x] = e
                        /\ o.ord = Cmp(o.a, o.b)
                        /\ o.pord = o.ord
                        /\ (e => o.hash)
                        /\ o.hs
    [] o.k = "eqs" -> \A x \in 1..Len(o.bits) : o.bits[x] = (o.a = o.b)
Check(k) == IF Good(Obs[k]) THEN TRUE ELSE PrintT("BAD " \o ToJson([i |-> k]))
Init == pos \in 1..Lanes
Next == pos <= Len(Obs) /\ Check(pos) /\ pos' = pos + Lanes
Spec == Init /\ [][Next]_pos
=============================================================================
