-------------------------------- MODULE Cli ---------------------------------
(* All argument lists up to a length, built one argument at a time, with what  *)
(* the program has to do for each.                                             *)
EXTENDS Argv, Json
CONSTANTS Cmds, Tokens, MaxArgs, Emitting

VARIABLES argv, rd
vars == <<argv, rd>>
Cmd == IF argv = <<>> THEN "" ELSE First(argv[1])
Ready == Cmd \in Commands

Init == argv \in {<<c>> : c \in Cmds} /\ rd = Fresh
Next == /\ Len(argv) - 1 < MaxArgs
        /\ \E a \in Tokens : /\ argv' = Append(argv, a)
                             /\ rd' = IF Ready THEN Step(Cmd, rd, a) ELSE rd
Spec == Init /\ [][Next]_vars

Incremental == Ready => rd = ReadAll(Cmd, Fresh, Tail(argv))
Emit == IF Outcome(argv).do \in Emitting THEN PrintT("V " \o ToJson([argv |-> argv, o |-> Outcome(argv)])) ELSE TRUE

(* Consequences. *)
O == Outcome(argv)
OneOutcome == O.do \in {"version", "help", "invalid", "missing", "blank", "message", "confirm"}
(* Options before and after the message mean the same. *)
Swap(s, i) == [k \in 1..Len(s) |-> IF k = i THEN s[i+1] ELSE IF k = i + 1 THEN s[i] ELSE s[k]]
Plainly(a) == IsText(a) /\ Read(a, MsgSwitches, MsgOptions).t \in {"text", "key", "opt"} /\ ~(Glued(a) \in HelpKeys) /\ ~(a \in HelpKeys)
AllPlain == \A i \in 2..Len(argv) : Plainly(argv[i])
Keyed(a) == LET x == Read(a, MsgSwitches, MsgOptions) IN IF x.t = "text" THEN <<>> ELSE x.k
SameGroup(a, b) == \E g \in {ColorKeys, ExitKeys, PrefixKeys} : Keyed(a) \in g /\ Keyed(b) \in g
OrderFree == (Ready /\ Cmd # "blank" /\ AllPlain) =>
  \A i \in 2..(Len(argv) - 1) :
    (~SameGroup(argv[i], argv[i+1]) /\ {Keyed(argv[i]), Keyed(argv[i+1])} # {<<>>}) => Outcome(Swap(argv, i)) = O
(* Repeating an argument that is an option changes nothing. *)
Idempotent == (Ready /\ AllPlain) =>
  \A i \in 2..Len(argv) : Keyed(argv[i]) # <<>> => Outcome(Append(argv, argv[i])).do = O.do
=============================================================================
