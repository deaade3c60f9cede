---------------------------- MODULE ProglessText ----------------------------
(* The texts of the progress bar: task labels, titles, times and summaries.    *)
EXTENDS Msg, Num, SequencesExt

(* White_Space and Cc of the Unicode standard. *)
IsSpace(c) == c \in 9..13 \cup {32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup 8192..8202
IsControl(c) == c \in 0..31 \cup 127..159
Spaced(s) == [i \in 1..Len(s) |-> IF IsSpace(s[i]) THEN 32 ELSE s[i]]
RECURSIVE TrimEnd(_)
TrimEnd(s) == IF s # << >> /\ s[Len(s)] = 32 THEN TrimEnd(SubSeq(s, 1, Len(s) - 1)) ELSE s

(* The label a task is listed by. *)
Label(s) == TrimEnd(SelectSeq(Spaced(Plain(s)), LAMBDA c : ~IsControl(c)))

(* What a text shows within a width: the longest leading part that fits. *)
Within(s, cw(_), w) == SubSeq(s, 1, Cut(s, [i \in 1..Len(s) |-> cw(s[i])], w))

TitleLine(p, m, cw(_), w) == Within(Plain(Spaced(p \o m)), cw, w)

(* Sorted as texts. *)
Before(a, b) == Cmp(a, b) < 0
Listed(S) == SetToSortSeq(S, Before)

(* Elapsed time in words. *)
Unit(n, one) == NatText(n) \o T(" ") \o T(one) \o (IF n = 1 THEN << >> ELSE T("s"))
Seconds(s, c) == IF c = 0 THEN Unit(s, "second") ELSE NatText(s) \o T(".") \o Padded(c, 2) \o T(" seconds")
RECURSIVE JoinFrom(_, _)
JoinFrom(q, i) ==
    IF i > Len(q) THEN << >>
    ELSE (IF i = 1 THEN << >> ELSE IF Len(q) = 2 THEN T(" and ") ELSE IF i = Len(q) THEN T(", and ") ELSE T(", ")) \o q[i] \o JoinFrom(q, i + 1)
Elapsed(ms) ==
    LET c == (ms % 1000) \div 10
        t == ms \div 1000
        d == t \div 86400
        h == (t % 86400) \div 3600
        m == (t % 3600) \div 60
        s == t % 60
        parts == (IF d = 0 THEN << >> ELSE <<Unit(d, "day")>>) \o (IF h = 0 THEN << >> ELSE <<Unit(h, "hour")>>)
                 \o (IF m = 0 THEN << >> ELSE <<Unit(m, "minute")>>) \o (IF s = 0 /\ c = 0 THEN << >> ELSE <<Seconds(s, c)>>)
    IN IF parts = << >> THEN T("0 seconds") ELSE JoinFrom(parts, 1)

Summary(kind, d, one, many, ms) ==
    KindPrefix(kind) \o Nice(d) \o T(" ") \o (IF d = Num(1) THEN one ELSE many) \o T(" in ") \o Elapsed(ms) \o T(".") \o <<LF>>
Finished(ms) == KindPrefix("Done") \o T("Finished in ") \o Elapsed(ms) \o T(".") \o <<LF>>
=============================================================================
