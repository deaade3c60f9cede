-------------------------------- MODULE Ansi --------------------------------
(* Texts as sequences of code points, the escape sequences in them, and what   *)
(* stripping, measuring and fitting mean.  Widths are given per character by   *)
(* the caller (cw: sequence of display widths, same length as the text), so    *)
(* the specification takes no position on Unicode tables.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

ESC == 27
LBR == 91
RBR == 93
BSL == 92
BEL == 7
OE  == 339
LF  == 10
CR  == 13

MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y

(* A sequence starts with ESC [ (CSI) or ESC ] (OSC). *)
IsStart(s, i) == i < Len(s) /\ s[i] = ESC /\ s[i+1] \in {LBR, RBR}

Starts(s) == {i \in 1..Len(s) : IsStart(s, i)}

(* Last position of the sequence starting at i; an unterminated one runs to the end of the text. *)
SeqEnd(s, i) ==
  IF s[i+1] = LBR
  THEN LET js == {j \in (i+2)..Len(s) : s[j] \in 64..126}
       IN IF js = {} THEN Len(s) ELSE MinOf(js)
  ELSE LET js == {j \in (i+2)..Len(s) : s[j] \in {BEL, OE}}
                 \cup {j \in (i+3)..Len(s) : s[j] = BSL /\ s[j-1] = ESC}
       IN IF js = {} THEN Len(s) ELSE MinOf(js)

(* Positions outside every sequence, scanning left to right. *)
RECURSIVE ScanFrom(_, _)
ScanFrom(s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE IF IsStart(s, i) THEN ScanFrom(s, SeqEnd(s, i) + 1)
  ELSE <<i>> \o ScanFrom(s, i + 1)

Shown(s) == ScanFrom(s, 1)

(* The text without its sequences: one left-to-right pass. *)
Plain(s) == LET v == Shown(s) IN [k \in 1..Len(v) |-> s[v[k]]]

(* Only the sequences, in order. *)
OnlySeqs(s) ==
  LET v == {Shown(s)[k] : k \in 1..Len(Shown(s))}
      RECURSIVE Go(_)
      Go(i) == IF i > Len(s) THEN <<>>
               ELSE IF i \in v THEN Go(i + 1) ELSE <<s[i]>> \o Go(i + 1)
  IN Go(1)

(* Stripping removes the leftmost sequence until there is none left: removing  *)
(* one may complete another.                                                   *)
RECURSIVE Strip(_)
Strip(s) ==
  LET st == Starts(s)
  IN IF st = {} THEN s
     ELSE LET i == MinOf(st)
          IN Strip(SubSeq(s, 1, i - 1) \o SubSeq(s, SeqEnd(s, i) + 1, Len(s)))

(* ---------------------------------------------------------------- widths -- *)
RECURSIVE SumAt(_, _, _)
SumAt(cw, v, k) == IF k = 0 THEN 0 ELSE cw[v[k]] + SumAt(cw, v, k - 1)

Width(s, cw) == LET v == Shown(s) IN SumAt(cw, v, Len(v))

(* How many characters of s to keep so that their width is at most w: all of   *)
(* them, or everything before the first shown character that does not fit.     *)
RECURSIVE CutGo(_, _, _, _, _, _)
CutGo(s, cw, v, w, k, acc) ==
  IF k > Len(v) THEN Len(s)
  ELSE IF acc + cw[v[k]] > w THEN v[k] - 1
  ELSE CutGo(s, cw, v, w, k + 1, acc + cw[v[k]])

Cut(s, cw, w) == CutGo(s, cw, Shown(s), w, 1, 0)

(* UTF-8 length, for byte positions. *)
Utf8Len(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
RECURSIVE Bytes(_, _)
Bytes(s, n) == IF n = 0 THEN 0 ELSE Utf8Len(s[n]) + Bytes(s, n - 1)

(* --------------------------------------------------------------- fitting -- *)
(* Lines, each with its line break. *)
RECURSIVE LinesFrom(_, _)
LinesFrom(s, i) ==     \* sequence of <<first, last>>
  IF i > Len(s) THEN <<>>
  ELSE LET js == {j \in i..Len(s) : s[j] = LF}
           e == IF js = {} THEN Len(s) ELSE MinOf(js)
       IN <<<<i, e>>>> \o LinesFrom(s, e + 1)

LineEnd(l) ==
  IF Len(l) > 1 /\ l[Len(l)] = LF /\ l[Len(l)-1] = CR THEN <<CR, LF>>
  ELSE IF Len(l) > 0 /\ l[Len(l)] = LF THEN <<LF>> ELSE <<>>

FitLine(l, cw, w) ==
  LET keep == Cut(l, cw, w)
  IN IF keep = Len(l) THEN l
     ELSE LET e == LineEnd(l)
              kill == SubSeq(l, keep + 1, Len(l) - Len(e))
          IN SubSeq(l, 1, keep) \o OnlySeqs(kill) \o e

RECURSIVE FitGo(_, _, _, _, _)
FitGo(s, cw, w, ls, k) ==
  IF k > Len(ls) THEN <<>>
  ELSE FitLine(SubSeq(s, ls[k][1], ls[k][2]), SubSeq(cw, ls[k][1], ls[k][2]), w)
       \o FitGo(s, cw, w, ls, k + 1)

Fit(s, cw, w) == IF w = 0 THEN <<>> ELSE FitGo(s, cw, w, LinesFrom(s, 1), 1)

(* ------------------------------------------------ properties of the above -- *)
RECURSIVE IsSubseqAt(_, _, _, _)
IsSubseqAt(a, b, i, j) ==
  IF i > Len(a) THEN TRUE
  ELSE IF j > Len(b) THEN FALSE
  ELSE IF a[i] = b[j] THEN IsSubseqAt(a, b, i + 1, j + 1)
  ELSE IsSubseqAt(a, b, i, j + 1)
IsSubsequence(a, b) == IsSubseqAt(a, b, 1, 1)

Count(s, c) == Cardinality({i \in 1..Len(s) : s[i] = c})

StripSound(s) ==
  LET p == Strip(s)
  IN /\ Starts(p) = {}
     /\ IsSubsequence(p, s)
     /\ (Starts(s) = {} => p = s)
     /\ Strip(p) = p

WidthSound(s, cw) == Width(s, cw) = SumAt(cw, Shown(s), Len(Shown(s))) /\ Len(Plain(s)) + Len(OnlySeqs(s)) = Len(s)

CutSound(s, cw, w) ==
  LET c == Cut(s, cw, w)
  IN /\ Width(SubSeq(s, 1, c), SubSeq(cw, 1, c)) <= w \/ c = 0
     /\ (Width(s, cw) <= w <=> c = Len(s))

FitSound(s, CwOf(_), w) ==
  LET f == Fit(s, [i \in 1..Len(s) |-> CwOf(s[i])], w)
      ls == LinesFrom(f, 1)
      os == LinesFrom(s, 1)
  IN IF w = 0 THEN f = <<>>
     ELSE /\ Count(f, LF) = Count(s, LF)
          /\ Len(ls) <= Len(os)
          /\ IsSubsequence(f, s)
          /\ \A k \in 1..Len(ls) :
               LET l == SubSeq(f, ls[k][1], ls[k][2])
               IN Width(l, [i \in 1..Len(l) |-> CwOf(l[i])]) <= w
=============================================================================
