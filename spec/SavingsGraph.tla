---------------------------- MODULE SavingsGraph ----------------------------
(* Every way to set a pair in up to Steps steps over some values.              *)
EXTENDS Savings
CONSTANTS Values, Steps
Vals == TLCEval({Values[i] : i \in 1..Len(Values)})
VARIABLES pair, path
Init == pair = Start(<< >>) /\ path = << >>
DoStart == path = << >> /\ \E b \in Vals : pair' = Start(b) /\ path' = <<<<"start", BigText(b), T("0")>>>>
DoBoth == path = << >> /\ \E b \in Vals, a \in Vals : pair' = Both(b, a) /\ path' = <<<<"both", BigText(b), BigText(a)>>>>
DoStop == path # << >> /\ Len(path) < Steps /\ \E a \in Vals : pair' = Stop(pair, a) /\ path' = Append(path, <<"stop", BigText(a), T("0")>>)
Next == DoStart \/ DoBoth \/ DoStop
Spec == Init /\ [][Next]_<<pair, path>>
Sound == PairSound(pair)
(* Setting step by step is the same as in one go. *)
Settled == path # << >> => pair = Both(pair.before, pair.after)
Emit == path # << >> => PrintT("V " \o ToJson([path |-> path]))
=============================================================================
