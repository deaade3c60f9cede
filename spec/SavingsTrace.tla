---------------------------- MODULE SavingsTrace ----------------------------
(* Recorded before/after pairs: the steps taken and everything the code says.  *)
EXTENDS Savings
CONSTANT File
Obs == JsonDeserialize(File)
VARIABLE pos
Lanes == 8
RECURSIVE Walk(_, _, _)
Walk(p, s, i) == IF i > Len(s) THEN p
                 ELSE Walk(IF s[i].op = "start" THEN Start(s[i].x) ELSE IF s[i].op = "stop" THEN Stop(p, s[i].x) ELSE Both(s[i].x, s[i].y), s, i + 1)
Ratio(has, q, d, b) == IF d = << >> THEN ~has ELSE has /\ IsRatio(q, d, b)
Bad(o) ==
  LET p == Walk(Start(<< >>), o.steps, 1) IN
  IF o.before # p.before \/ o.after # p.after THEN "value"
  ELSE IF o.less # Less(p) THEN "less"
  ELSE IF o.more # More(p) THEN "more"
  ELSE IF ~Ratio(o.haslp, o.lp, Less(p), p.before) THEN "less percent"
  ELSE IF ~Ratio(o.hasmp, o.mp, More(p), p.before) THEN "more percent"
  ELSE IF Less(p) # << >> /\ ~IsPercent(o.pct, Less(p), p.before) THEN "percentage shown"
  ELSE IF o.text # o.head \o Suffix(p, o.pct) \o o.tail THEN "description"
  ELSE ""
Check(k) == IF Bad(Obs[k]) = "" THEN TRUE ELSE PrintT("BAD " \o ToJson([i |-> k, w |-> Bad(Obs[k])]))
Init == pos \in 1..Lanes
Next == pos <= Len(Obs) /\ Check(pos) /\ pos' = pos + Lanes
Spec == Init /\ [][Next]_pos
=============================================================================
