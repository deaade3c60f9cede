----------------------------- MODULE PrefixGen ------------------------------
(* Every prefix: all kinds, and every custom text with every colour. *)
EXTENDS Msg, Json
CONSTANT Texts
VARIABLE pfx
All == {[kind |-> k, text |-> <<>>, color |-> -1] : k \in DOMAIN Kinds}
       \cup {[kind |-> "", text |-> t, color |-> c] : t \in Texts, c \in -1..255}
Init == pfx \in All
Next == FALSE /\ pfx' = pfx
Spec == Init /\ [][Next]_pfx

ColorOf == IF pfx.kind # "" THEN Kinds[pfx.kind].color ELSE pfx.color
Vector == [p |-> pfx, t |-> PrefixText(pfx),
           name |-> IF pfx.kind # "" THEN T(Kinds[pfx.kind].name) ELSE <<>>,
           color |-> ColorOf,
           seq |-> IF ColorOf < 0 THEN <<>> ELSE ColorSeq(ColorOf),
           reset |-> ResetSeq]
Emit == PrintT("V " \o ToJson(Vector))
(* A prefix is its text between formatting that is closed again. *)
Sound == LET t == IF pfx.kind # "" THEN T(Kinds[pfx.kind].name) ELSE pfx.text
             r == PrefixText(pfx)
         IN IF t = <<>> THEN r = <<>>
            ELSE Starts(t) = {} => /\ Plain(r) = t \o T(": ")
                                   /\ (ColorOf >= 0 => OnlySeqs(r) = BoldColorSeq(ColorOf) \o ResetSeq)
=============================================================================
