------------------------------ MODULE MsgGraph ------------------------------
(* The state graph of a message over small sets of values; every transition is *)
(* printed for replay on the implementation.                                   *)
EXTENDS Msg, Json

CONSTANTS Texts, Suffixes, Prefixes, Indents, Stamps

VARIABLES cur, op
vars == <<cur, op>>

Ops ==
  {[op |-> "indent", n |-> n] : n \in Indents}
  \cup {[op |-> "stamp", on |-> b] : b \in Stamps}
  \cup {[op |-> "prefix", prefix |-> p] : p \in Prefixes}
  \cup {[op |-> "msg", text |-> t] : t \in Texts}
  \cup {[op |-> "suffix", text |-> t] : t \in Suffixes}
  \cup {[op |-> "newline", on |-> b] : b \in BOOLEAN}
  \cup {[op |-> "strip"]}

Makers ==
  {[op |-> "default"]}
  \cup {[op |-> "from", text |-> t] : t \in Texts}
  \cup {[op |-> "new", prefix |-> p, text |-> t] : p \in Prefixes, t \in Texts}

Init == \E o \in Makers : cur = Apply(Empty, o) /\ op = o
Next == \E o \in Ops : cur' = Apply(cur, o) /\ op' = o
Spec == Init /\ [][Next]_vars

View == cur

(* Properties of the model itself. *)
PartsOf(o) == CASE o.op = "indent" -> {"ind"} [] o.op = "stamp" -> {"ts"} [] o.op = "prefix" -> {"pre"}
                [] o.op = "msg" -> {"msg"} [] o.op = "suffix" -> {"suf"} [] o.op = "newline" -> {"nl"}
                [] OTHER -> {"ts", "pre", "msg", "suf"}
Independent == \A f \in DOMAIN cur \ PartsOf(op') : cur'[f] = cur[f]
StripWorks == op'.op = "strip" => Stripped(cur') /\ (cur' # cur <=> WouldStrip(cur))

EmitInit == (TLCGet("level") = 1) => PrintT("I " \o ToJson([op |-> op, to |-> cur, out |-> Render(cur)]))
EmitStep == PrintT("T " \o ToJson([from |-> cur, op |-> op', to |-> cur', out |-> Render(cur'), ch |-> cur # cur']))
Check == Independent /\ StripWorks
ActProp == [][Check]_vars
=============================================================================
