------------------------------ MODULE Progless ------------------------------
(* The progress bar as an object: what each call does to its state.            *)
(*                                                                             *)
(* Reaching the total, ending and restarting are not one moment each for calls *)
(* that overlap them.  Counting to the total leaves a full bar that still runs *)
(* until that call has ended it; ending first stops whatever is not under way, *)
(* and then sets done to the total and empties the list; restarting sets the   *)
(* counts before the bar runs.  The call itself returns after all of that.     *)
EXTENDS Num, FiniteSets

NoTitle == [on |-> FALSE, p |-> << >>, m |-> << >>, s |-> << >>]
Warning == [on |-> TRUE, p |-> T("Warning: "), m |-> T("Early shutdown in progress."), s |-> << >>]

Nothing == [ph |-> "none", done |-> Num(0), total |-> Num(0), tasks |-> {}, title |-> NoTitle, sw |-> FALSE, warned |-> FALSE]
Fresh(n) == [Nothing EXCEPT !.ph = IF n = Num(0) THEN "ended" ELSE "run", !.total = n]

Counts(s) == [d |-> s.done, n |-> s.total]

Call(o, a, t, running) == [o |-> o, a |-> a, tt |-> t, st |-> "go", saw |-> running, ender |-> FALSE, res |-> "-"]
Fin(c) == [c EXCEPT !.st = "ret"]
FinR(c, r) == [c EXCEPT !.st = "ret", !.res = r]

(* Begin to end the bar. *)
End(s, c) == <<[s EXCEPT !.ph = "ending"], [c EXCEPT !.st = "end", !.ender = TRUE]>>
Full(s, c) == <<[s EXCEPT !.done = s.total], [c EXCEPT !.st = "full", !.ender = TRUE]>>

(* Counts can still be changed by calls that saw the bar running. *)
Open(s, c) == s.ph \in {"ending", "restart"} /\ c.saw

CountTo(s, c, d) ==
    IF s.done = s.total THEN <<s, Fin(c)>>
    ELSE IF Less(d, s.total) THEN <<[s EXCEPT !.done = d], Fin(c)>>
    ELSE Full(s, c)

Count(s, c, d) ==
    IF d = s.done THEN {<<s, Fin(c)>>}
    ELSE IF s.ph = "run" THEN {CountTo(s, c, d)}
    ELSE {<<s, Fin(c)>>} \cup (IF Open(s, c) THEN {CountTo(s, c, d)} ELSE {})
Advance(s, c, n) == Count(s, c, Plus(s.done, n))

List(s, c, l) ==
    LET yes == <<[s EXCEPT !.tasks = @ \cup {l}], FinR(c, "true")>>
        no == <<s, FinR(c, "false")>>
        new == l # << >> /\ l \notin s.tasks
    IN IF s.ph = "run" THEN IF new THEN {yes} ELSE {no}
       ELSE {no} \cup (IF c.saw /\ new THEN {<<s, FinR(c, "true")>>} ELSE {})
                \cup (IF Open(s, c) /\ new THEN {yes} ELSE {})

Unlist(s, c, l) ==
    LET yes == <<[s EXCEPT !.tasks = @ \ {l}], [c EXCEPT !.st = "count"]>>
    IN IF l \notin s.tasks THEN {<<s, Fin(c)>>}
       ELSE IF s.ph = "run" THEN {yes}
       ELSE {<<s, Fin(c)>>} \cup (IF Open(s, c) THEN {yes} ELSE {})

(* What may happen next on behalf of a pending call: pairs of state and call.  *)
Steps(s, c) ==
    CASE c.st = "ret" -> {}
      [] c.st = "full" -> IF s.ph \in {"ending", "restart"} THEN {}
                          ELSE IF s.ph = "run" /\ s.done = s.total THEN {<<[s EXCEPT !.ph = "ended", !.tasks = {}], Fin(c)>>}
                          ELSE {<<s, Fin(c)>>}
      [] c.st = "end" -> {<<[s EXCEPT !.ph = "ended", !.done = s.total, !.tasks = {}], [c EXCEPT !.st = IF c.o = "reset" THEN "again" ELSE "ret"]>>}
      [] c.st = "again" -> {<<[s EXCEPT !.ph = "restart", !.done = Num(0), !.total = c.a, !.tasks = {}, !.warned = FALSE], [c EXCEPT !.st = "start"]>>}
      [] c.st = "start" -> {<<[s EXCEPT !.ph = "run"], Fin(c)>>}
      [] c.st = "count" -> Advance(s, c, Num(1))
      [] c.st = "go" ->
         CASE c.o = "new" -> {<<[Fresh(c.a) EXCEPT !.title = c.tt, !.sw = s.sw], Fin(c)>>}
           [] c.o = "inc" -> Advance(s, c, c.a)
           [] c.o = "set" -> Count(s, c, c.a)
           [] c.o = "add" -> List(s, c, c.a)
           [] c.o = "rem" -> Unlist(s, c, c.a)
           [] c.o = "title" -> {<<[s EXCEPT !.title = c.tt], Fin(c)>>}
           [] c.o = "tmsg" -> {<<IF s.title.on THEN [s EXCEPT !.title.m = c.tt.m] ELSE s, Fin(c)>>}
           [] c.o = "fin" -> IF s.ph = "run" THEN {End(s, c)} ELSE IF s.ph \in {"ending", "restart"} THEN {} ELSE {<<s, Fin(c)>>}
           [] c.o = "reset" -> IF c.a = Num(0) THEN {<<s, FinR(c, "EmptyTotal")>>}
                               ELSE IF s.ph = "run" THEN {End(s, c)}
                               ELSE IF s.ph \in {"ending", "restart"} THEN {}
                               ELSE {<<s, [c EXCEPT !.st = "again"]>>}
           [] c.o = "sum" -> {<<s, FinR(c, s.done)>>}
           [] c.o = "sw" -> {<<s, FinR(c, IF s.sw THEN "true" ELSE "false")>>}
           [] OTHER -> {<<s, Fin(c)>>}
=============================================================================
