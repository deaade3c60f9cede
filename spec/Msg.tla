-------------------------------- MODULE Msg ---------------------------------
(* A message as a record of independent parts, and its edits.                  *)
EXTENDS Ansi, AnsiCode

(* The current date and time inside a timestamp stands as this one character;  *)
(* the driver replaces an observed one by it if it is the time of the call.    *)
STAMP == 57344

Kinds == [
  None |-> [name |-> "", color |-> -1],
  Aborted |-> [name |-> "Aborted", color |-> 9],
  Confirm |-> [name |-> "Confirm", color |-> 208],
  Crunched |-> [name |-> "Crunched", color |-> 10],
  Debug |-> [name |-> "Debug", color |-> 14],
  Done |-> [name |-> "Done", color |-> 10],
  Error |-> [name |-> "Error", color |-> 9],
  Found |-> [name |-> "Found", color |-> 10],
  Info |-> [name |-> "Info", color |-> 13],
  Notice |-> [name |-> "Notice", color |-> 13],
  Review |-> [name |-> "Review", color |-> 14],
  Skipped |-> [name |-> "Skipped", color |-> 11],
  Success |-> [name |-> "Success", color |-> 10],
  Task |-> [name |-> "Task", color |-> 199],
  Warning |-> [name |-> "Warning", color |-> 11]]

(* A prefix request: [kind |-> k] or [text |-> t, color |-> c], c = -1 for none. *)
CustomPrefix(t, c) ==
  IF t = <<>> THEN <<>>
  ELSE IF c < 0 THEN t \o T(": ")
  ELSE BoldColorSeq(c) \o t \o T(":") \o ResetSeq \o T(" ")

KindPrefix(k) == CustomPrefix(T(Kinds[k].name), Kinds[k].color)

PrefixText(p) == IF p.kind # "" THEN KindPrefix(p.kind) ELSE CustomPrefix(p.text, p.color)

StampText == CSI \o T("2m[") \o CSI \o T("0;34m") \o <<STAMP>> \o CSI \o T("0;2m]") \o ResetSeq \o T(" ")

Empty == [ind |-> 0, ts |-> <<>>, pre |-> <<>>, msg |-> <<>>, suf |-> <<>>, nl |-> FALSE]

Spaces(n) == [i \in 1..n |-> 32]

Render(m) == Spaces(4 * m.ind) \o m.ts \o m.pre \o m.msg \o m.suf \o (IF m.nl THEN <<LF>> ELSE <<>>)

(* Construction and edits.  An operation is a record with a field "op". *)
Apply(m, o) ==
  CASE o.op = "default" -> Empty
    [] o.op = "from"    -> [Empty EXCEPT !.msg = o.text]
    [] o.op = "new"     -> [Empty EXCEPT !.pre = PrefixText(o.prefix), !.msg = o.text]
    [] o.op = "into"    -> [Empty EXCEPT !.pre = PrefixText(o.prefix), !.msg = o.text]
    [] o.op = "short"   -> [Empty EXCEPT !.pre = PrefixText(o.prefix), !.msg = o.text, !.nl = TRUE]
    [] o.op = "clone"   -> m
    [] o.op = "indent"  -> [m EXCEPT !.ind = IF o.n > 8 THEN 8 ELSE o.n]
    [] o.op = "stamp"   -> [m EXCEPT !.ts = IF o.on THEN StampText ELSE <<>>]
    [] o.op = "prefix"  -> [m EXCEPT !.pre = PrefixText(o.prefix)]
    [] o.op = "msg"     -> [m EXCEPT !.msg = o.text]
    [] o.op = "suffix"  -> [m EXCEPT !.suf = o.text]
    [] o.op = "newline" -> [m EXCEPT !.nl = o.on]
    [] o.op = "strip"   -> [m EXCEPT !.ts = Strip(@), !.pre = Strip(@), !.msg = Strip(@), !.suf = Strip(@)]

Stripped(m) == \A t \in {m.ts, m.pre, m.msg, m.suf} : Starts(t) = {}

(* Whether strip_ansi has anything to do. *)
WouldStrip(m) == ~Stripped(m)
=============================================================================
