------------------------------ MODULE MsgTrace ------------------------------
(* Recorded histories of real messages: each event is an operation with the    *)
(* text the real message had afterwards.  A mismatch is printed and the trace  *)
(* is given up there.                                                          *)
EXTENDS Msg, Json

CONSTANT File
Traces == JsonDeserialize(File)

VARIABLES tr, ln, cur

Init == tr \in 1..Len(Traces) /\ ln = 0 /\ cur = Empty

Ok(e, n) ==
  /\ e.out = Render(n)
  /\ e.op = "strip" => (e.flag = 2 \/ (e.flag = 1) = WouldStrip(cur))

Next ==
  /\ ln < Len(Traces[tr])
  /\ LET e == Traces[tr][ln+1]
         n == Apply(cur, e)
     IN IF Ok(e, n) THEN cur' = n /\ ln' = ln + 1
        ELSE /\ PrintT("BAD " \o ToJson([t |-> tr, l |-> ln + 1, want |-> Render(n), strip |-> WouldStrip(cur)]))
             /\ ln' = Len(Traces[tr]) /\ cur' = cur
  /\ UNCHANGED tr

Done == ln = Len(Traces[tr])
Spec == Init /\ [][Next]_<<tr, ln, cur>>
=============================================================================
