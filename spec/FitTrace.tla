------------------------------ MODULE FitTrace ------------------------------
(* Recorded results of measuring, cutting and fitting, checked one per state.  *)
(* cw holds the display widths of the characters of s.                         *)
EXTENDS Ansi, Json
CONSTANTS File, Mode
Obs == JsonDeserialize(File)
VARIABLE pos
Lanes == 8
Want(o) == IF Mode = "fit" THEN Fit(o.s, o.cw, o.w)
           ELSE IF o.w < 0 THEN Width(o.s, o.cw) ELSE Bytes(o.s, Cut(o.s, o.cw, o.w))
Got(o) == IF Mode = "fit" THEN o.r ELSE o.n
Check(k) == LET w == Want(Obs[k]) IN IF Got(Obs[k]) = w THEN TRUE ELSE PrintT("BAD " \o ToJson([i |-> k, want |-> w]))
Init == pos \in 1..Lanes
Next == pos <= Len(Obs) /\ Check(pos) /\ pos' = pos + Lanes
Spec == Init /\ [][Next]_pos
=============================================================================
