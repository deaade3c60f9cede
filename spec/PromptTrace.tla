---------------------------- MODULE PromptTrace -----------------------------
(* The replies to recorded lines. *)
EXTENDS Prompt
CONSTANT File
Recorded == JsonDeserialize(File)
VARIABLE pos
TraceInit == pos \in 1..Len(Recorded) /\ input = <<>> /\ asked = <<>> /\ answers = <<>>
TraceNext == FALSE /\ pos' = pos /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, pos>>
EmitReply == PrintT("V " \o ToJson([l |-> Recorded[pos], r |-> Reply(Recorded[pos])]))
=============================================================================
