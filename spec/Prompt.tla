------------------------------- MODULE Prompt -------------------------------
(* A yes/no prompt as a state machine over the lines of its input.             *)
(*                                                                             *)
(* Lines are sequences of code points without the line break (a byte that is   *)
(* not valid UTF-8 stands as RawByte + byte).  The input ends after the last   *)
(* line; its last line may lack the line break (ends = "bare"), and reading    *)
(* beyond may give end-of-file or a read error.                                *)
EXTENDS Argv, Json

CONSTANTS Lines, MaxLines, Rounds

VARIABLES input,     \* what is left to read
          asked,     \* the lines read so far
          answers    \* the answers so far: one per prompt that has returned
vars == <<input, asked, answers>>

Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
Folded(l) == LET t == Trim(l) IN [i \in 1..Len(t) |-> Lower(t[i])]

(* What a line answers. *)
Reply(l) ==
  IF ~IsText(l) THEN "again"
  ELSE LET f == Folded(l)
       IN IF f = <<>> THEN "default"
          ELSE IF f \in {T("y"), T("yes")} THEN "yes"
          ELSE IF f \in {T("n"), T("no")} THEN "no"
          ELSE "again"

(* Transcripts: what is shown.  "ask", "error", "yes", "no", "default". *)
Init == input \in UNION {[1..n -> Lines] : n \in 0..MaxLines} /\ asked = <<>> /\ answers = <<>>

Show == LET Go[k \in 0..Len(answers)] == IF k = 0 THEN <<>> ELSE Go[k-1] \o answers[k] IN Go[Len(answers)]
Pending == answers # <<>> /\ answers[Len(answers)][Len(answers[Len(answers)])] = "error"
Returned == Cardinality({k \in 1..Len(answers) : answers[k][Len(answers[k])] # "error"})

Step1(reply) == IF reply = "again" THEN <<"ask", "error">> ELSE <<"ask", reply>>

Answer ==
  /\ Returned < Rounds
  /\ input # <<>>
  /\ input' = Tail(input) /\ asked' = Append(asked, Head(input))
  /\ answers' = Append(answers, Step1(Reply(Head(input))))

EndOfInput ==
  /\ Returned < Rounds
  /\ input = <<>>
  /\ answers' = Append(answers, <<"ask", "default">>)
  /\ UNCHANGED <<input, asked>>

Next == Answer \/ EndOfInput
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == Returned = Rounds
Emit == Done => PrintT("V " \o ToJson([lines |-> asked, left |-> Len(input), show |-> Show]))

(* Properties of the model. *)
OneLineEach == Len(asked) <= Len(answers)
FreshEach == \A k \in 1..Len(asked) : answers[k] = Step1(Reply(asked[k]))
Ends == <>Done
=============================================================================
