-------------------------------- MODULE Argv --------------------------------
(* The command line of fyi: how a list of arguments is read, option by option, *)
(* and what the program has to do then.  An argument is a sequence of code     *)
(* points; a byte that is not part of valid UTF-8 stands as Raw + byte.        *)
EXTENDS Msg, SequencesExt

RawByte == 2097152
IsText(a) == \A i \in 1..Len(a) : a[i] < RawByte

Alnum(c) == c \in 48..57 \cup 65..90 \cup 97..122
Digit(c) == c \in 48..57
DASH == 45
EQ == 61

(* ------------------------------------------------------------- numbers -- *)
WhiteSpace == TLCEval({9, 10, 11, 12, 13, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup 8192..8202)
RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ s[1] \in WhiteSpace THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ s[Len(s)] \in WhiteSpace THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimR(TrimL(s))

RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ s[1] = 48 THEN StripZeros(Tail(s)) ELSE s
RECURSIVE NatOf(_, _)
NatOf(s, k) == IF k = 0 THEN 0 ELSE 10 * NatOf(s, k - 1) + (s[k] - 48)

(* The number a text stands for if it is at most max (a small number), or -1. *)
Number(a, max) ==
  LET s == Trim(a)
      z == StripZeros(s)
  IN IF s = <<>> \/ (\E i \in 1..Len(s) : ~Digit(s[i])) \/ Len(z) > 9 THEN -1
     ELSE LET n == NatOf(z, Len(z)) IN IF n > max THEN -1 ELSE n

(* ------------------------------------------------------------- keywords -- *)
(* How argument a is read given the switches and the options with values.      *)
(* [t |-> "skip"], [t |-> "end"], [t |-> "key", k], [t |-> "opt", k, v]        *)
(* (v in the same argument), [t |-> "want", k] (v is the next argument),       *)
(* [t |-> "text"] or [t |-> "raw"].                                            *)
Short(a) == SubSeq(a, 1, 2)
LongKey(a) == LET js == {j \in 1..Len(a) : a[j] = EQ} IN IF js = {} THEN <<>> ELSE SubSeq(a, 1, MinOf(js) - 1)
Glued(a) == IF Len(a) >= 3 /\ a[1] = DASH
            THEN IF Alnum(a[2]) THEN Short(a) ELSE IF a[2] = DASH /\ Alnum(a[3]) THEN LongKey(a) ELSE <<>>
            ELSE <<>>
AfterKey(a, k) == LET v == SubSeq(a, Len(k) + 1, Len(a)) IN IF v # <<>> /\ v[1] = EQ THEN Tail(v) ELSE v

Read(a, switches, options) ==
  IF ~IsText(a) THEN [t |-> "raw"]
  ELSE IF a = <<>> THEN [t |-> "skip"]
  ELSE IF a = <<DASH, DASH>> THEN [t |-> "end"]
  ELSE IF a \in switches THEN [t |-> "key", k |-> a]
  ELSE IF a \in options THEN [t |-> "want", k |-> a]
  ELSE IF Glued(a) \in switches THEN [t |-> "key", k |-> Glued(a)]
  ELSE IF Glued(a) \in options THEN [t |-> "opt", k |-> Glued(a), v |-> AfterKey(a, Glued(a))]
  ELSE [t |-> "text"]

(* ------------------------------------------------------------- commands -- *)
CommandKinds == [
  aborted |-> "Aborted", blank |-> "Blank", confirm |-> "Confirm", crunched |-> "Crunched", debug |-> "Debug",
  done |-> "Done", error |-> "Error", found |-> "Found", info |-> "Info", notice |-> "Notice", print |-> "Custom",
  review |-> "Review", skipped |-> "Skipped", success |-> "Success", task |-> "Task", warning |-> "Warning"]
Commands == DOMAIN CommandKinds
CommandTexts == TLCEval([c \in Commands |-> T(c)])
CommandOf(a) == IF \E c \in Commands : CommandTexts[c] = a THEN CHOOSE c \in Commands : CommandTexts[c] = a ELSE ""

HelpKeys == {T("-h"), T("--help")}
VersionKeys == {T("-V"), T("--version")}
IndentKeys == {T("-i"), T("--indent")}
StampKeys == {T("-t"), T("--timestamp")}
YesKeys == {T("-y"), T("--yes")}
ColorKeys == {T("-c"), T("--prefix-color")}
ExitKeys == {T("-e"), T("--exit")}
PrefixKeys == {T("-p"), T("--prefix")}
CountKeys == {T("-c"), T("--count")}
StderrKeys == {T("--stderr")}

MsgSwitches == TLCEval(HelpKeys \cup IndentKeys \cup StampKeys \cup YesKeys \cup StderrKeys)
MsgOptions == TLCEval(ColorKeys \cup ExitKeys \cup PrefixKeys)
BlankSwitches == TLCEval(HelpKeys \cup StderrKeys)

(* ------------------------------------------------ reading, step by step -- *)
(* The reader's state.  st: "open" while reading, then "done", "help" or       *)
(* "invalid"; key: an option waiting for its value.                            *)
Fresh == [st |-> "open", key |-> <<>>, msg |-> <<>>, has |-> FALSE, prefix |-> <<>>, color |-> 199, exit |-> 0,
          indent |-> FALSE, stamp |-> FALSE, stderr |-> FALSE, yes |-> FALSE, count |-> T("1")]

SetOption(r, k, v) ==
  IF k \in PrefixKeys THEN [r EXCEPT !.prefix = v]
  ELSE IF k \in ExitKeys THEN [r EXCEPT !.exit = IF Number(v, 255) < 0 THEN @ ELSE Number(v, 255)]
  ELSE [r EXCEPT !.color = IF Number(v, 255) < 0 THEN @ ELSE Number(v, 255)]

MsgStep(r, a) ==
  IF r.st # "open" THEN r
  ELSE IF r.key # <<>> THEN
    IF IsText(a) THEN [SetOption(r, r.key, a) EXCEPT !.key = <<>>] ELSE [r EXCEPT !.st = "invalid"]
  ELSE LET x == Read(a, MsgSwitches, MsgOptions)
  IN CASE x.t = "skip" -> r
       [] x.t = "raw" -> [r EXCEPT !.st = "invalid"]
       [] x.t = "end" -> [r EXCEPT !.st = "done"]
       [] x.t = "want" -> [r EXCEPT !.key = x.k]
       [] x.t = "opt" -> SetOption(r, x.k, x.v)
       [] x.t = "text" -> IF r.has THEN [r EXCEPT !.st = "invalid"] ELSE [r EXCEPT !.has = TRUE, !.msg = a]
       [] x.t = "key" -> IF x.k \in HelpKeys THEN [r EXCEPT !.st = "help"]
                         ELSE IF x.k \in IndentKeys THEN [r EXCEPT !.indent = TRUE]
                         ELSE IF x.k \in StampKeys THEN [r EXCEPT !.stamp = TRUE]
                         ELSE IF x.k \in YesKeys THEN [r EXCEPT !.yes = TRUE]
                         ELSE [r EXCEPT !.stderr = TRUE]

(* The number of lines is kept by its digits, since it may be as large as 2^64 *)
(* - 1.  What is not a number up to that, or zero, changes nothing.            *)
MaxCount == T("18446744073709551615")
Digits(a) ==
  LET s == Trim(a)
  IN IF s = <<>> \/ (\E i \in 1..Len(s) : ~Digit(s[i])) THEN <<>> ELSE StripZeros(s)
Above(x, y) == Len(x) > Len(y) \/ (Len(x) = Len(y) /\ \E i \in 1..Len(x) : x[i] > y[i] /\ \A j \in 1..(i - 1) : x[j] = y[j])
SetCount(r, v) == LET z == Digits(v) IN [r EXCEPT !.count = IF Above(z, @) /\ ~Above(z, MaxCount) THEN z ELSE @]
BlankStep(r, a) ==
  IF r.st # "open" THEN r
  ELSE IF r.key # <<>> THEN [(IF IsText(a) THEN SetCount(r, a) ELSE r) EXCEPT !.key = <<>>]
  ELSE LET x == Read(a, BlankSwitches, CountKeys)
  IN CASE x.t \in {"skip", "raw", "text"} -> r
       [] x.t = "end" -> [r EXCEPT !.st = "done"]
       [] x.t = "want" -> [r EXCEPT !.key = x.k]
       [] x.t = "opt" -> SetCount(r, x.v)
       [] x.t = "key" -> IF x.k \in HelpKeys THEN [r EXCEPT !.st = "help"] ELSE [r EXCEPT !.stderr = TRUE]

Step(cmd, r, a) == IF cmd = "blank" THEN BlankStep(r, a) ELSE MsgStep(r, a)

ReadAll(cmd, r, args) == FoldLeft(LAMBDA x, a : Step(cmd, x, a), r, args)

(* ------------------------------------------------------------- outcomes -- *)
(* [do |-> "version" | "help" | "invalid" | "missing" | "blank" | "message" |  *)
(* "confirm", ...]                                                             *)
MessageText(cmd, r) ==
  LET k == CommandKinds[cmd]
      p == IF k = "Custom" THEN CustomPrefix(r.prefix, r.color) ELSE KindPrefix(k)
  IN Render([ind |-> IF r.indent THEN 1 ELSE 0, ts |-> IF r.stamp THEN StampText ELSE <<>>, pre |-> p, msg |-> r.msg,
             suf |-> <<>>, nl |-> TRUE])

Finish(cmd, r) ==
  CASE r.st = "help" -> [do |-> "help", cmd |-> cmd]
    [] r.st = "invalid" -> [do |-> "invalid", cmd |-> cmd]
    [] cmd = "blank" -> [do |-> "blank", count |-> r.count, stderr |-> r.stderr]
    [] ~r.has -> [do |-> "missing"]
    [] cmd = "confirm" -> [do |-> "confirm", ask |-> MessageText(cmd, r), yes |-> r.yes]
    [] OTHER -> [do |-> "message", text |-> MessageText(cmd, r), stderr |-> r.stderr, exit |-> r.exit]

First(a) == LET x == Read(a, HelpKeys \cup VersionKeys, {})
            IN IF x.t = "key" /\ x.k \in VersionKeys THEN "version"
               ELSE IF x.t = "text" THEN CommandOf(a) ELSE ""

(* The first argument, where there is one, is not empty in this model.         *)
Outcome(argv) ==
  IF argv = <<>> \/ argv[1] = <<>> THEN [do |-> "help", cmd |-> ""]
  ELSE LET c == First(argv[1])
       IN IF c = "version" THEN [do |-> "version"]
          ELSE IF c = "" THEN [do |-> "help", cmd |-> ""]
          ELSE Finish(c, ReadAll(c, Fresh, Tail(argv)))
=============================================================================
