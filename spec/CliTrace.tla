------------------------------ MODULE CliTrace ------------------------------
(* Recorded runs of the program with long argument lists: the outcome wanted   *)
(* for each is printed where it is not the one seen.                           *)
EXTENDS Argv, Json
CONSTANT File
Cases == JsonDeserialize(File)
VARIABLE pos
Lanes == 8
Tell(k) == PrintT("V " \o ToJson([argv |-> Cases[k], o |-> Outcome(Cases[k])]))
Init == pos \in 1..Lanes
Next == pos <= Len(Cases) /\ Tell(pos) /\ pos' = pos + Lanes
Spec == Init /\ [][Next]_pos
=============================================================================
