----------------------------- MODULE StripTrace -----------------------------
(* Recorded results of stripping, checked one per state. *)
EXTENDS Ansi, Json
CONSTANT File
Obs == JsonDeserialize(File)
VARIABLE pos
Lanes == 8
Good(o) == LET p == Strip(o.s) IN o.flag < 0 \/ (o.r = p /\ (o.flag = 1 <=> p # o.s))
Check(k) == IF Good(Obs[k]) THEN TRUE ELSE PrintT("BAD " \o ToJson([i |-> k, want |-> Strip(Obs[k].s)]))
Init == pos \in 1..Lanes
Next == pos <= Len(Obs) /\ Check(pos) /\ pos' = pos + Lanes
Spec == Init /\ [][Next]_pos
=============================================================================
