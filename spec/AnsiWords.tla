------------------------------ MODULE AnsiWords -----------------------------
(* What the formatting macros stand for: words, sequences of words, wrapped    *)
(* contents.                                                                   *)
EXTENDS AnsiCode, FiniteSets

(* A word: a keyword, a colour's name, or a colour's number (w is "#" then);   *)
(* off: preceded by an exclamation mark.                                       *)
NameSet == {ColorNames[i][1] : i \in 1..Len(ColorNames)}
NameNumber == TLCEval([x \in NameSet |-> (CHOOSE i \in 1..Len(ColorNames) : ColorNames[i][1] = x)])
On == {"reset", "bold", "dim", "italic", "underline", "blink", "strike"}
Off == {"reset", "bold", "dim", "italic", "underline", "blink", "strike", "fg"}

Word(k) ==
  IF k.w = "#" THEN (IF k.off = 1 THEN T("39") ELSE FgCode(k.n))
  ELSE IF k.w \in NameSet THEN (IF k.off = 1 THEN T("39") ELSE FgCode(ColorNames[NameNumber[k.w]][2]))
  ELSE IF k.off = 1 THEN (IF k.w = "reset" THEN T("0") ELSE T(KeywordOff[k.w])) ELSE T(KeywordCode[k.w])

AllWords == TLCEval(
  {[w |-> "#", n |-> i, off |-> o] : i \in 0..255, o \in 0..1}
  \cup {[w |-> x, n |-> 0, off |-> o] : x \in NameSet, o \in 0..1}
  \cup {[w |-> x, n |-> 0, off |-> 0] : x \in On} \cup {[w |-> x, n |-> 0, off |-> 1] : x \in Off})

RECURSIVE Joined(_, _)
Joined(ws, i) == IF i > Len(ws) THEN << >> ELSE (IF i = 1 THEN << >> ELSE <<59>>) \o Word(ws[i]) \o Joined(ws, i + 1)
Csi(ws) == IF ws = << >> THEN ResetSeq ELSE CSI \o Joined(ws, 1) \o T("m")

(* Contents: texts, sequences, wrapped contents. *)
RECURSIVE Content(_), Contents(_, _)
Content(c) == IF c.k = "text" THEN c.s ELSE IF c.k = "csi" THEN Csi(c.ws) ELSE Csi(c.ws) \o Contents(c.cs, 1) \o ResetSeq
Contents(cs, i) == IF i > Len(cs) THEN << >> ELSE Content(cs[i]) \o Contents(cs, i + 1)
=============================================================================
