------------------------------ MODULE Savings -------------------------------
(* A before/after pair: how it is set, what it says, and how it is described.  *)
EXTENDS Big, Json

(* Zero is the same as not set. *)
Start(b) == [before |-> b, after |-> << >>]
Stop(p, a) == [p EXCEPT !.after = a]
Both(b, a) == Stop(Start(b), a)

IsSet(p) == p.before # << >> /\ p.after # << >>
Less(p) == IF IsSet(p) /\ BigLess(p.after, p.before) THEN BigSub(p.before, p.after) ELSE << >>
More(p) == IF IsSet(p) /\ BigLess(p.before, p.after) THEN BigSub(p.after, p.before) ELSE << >>

(* q, an integer, is what d over b comes to in units of 10^-25: to the last of *)
(* a floating point number's digits.                                           *)
Unit == TLCEval(Pow(10, 25))
IsRatio(q, d, b) == BigLeq(BigGap(BigMul(q, b), BigMul(d, Unit)), BigAdd(b, BigMul(d, TLCEval(Pow(10, 10)))))

(* p, in hundredths of a percent, is d over b, rounded; at a tie either way. *)
IsPercent(p, d, b) == BigLeq(BigScale(BigGap(BigScale(b, 2 * p), BigScale(d, 20000)), 1000), BigScale(b, 1001))

Two(k) == <<48 + (k \div 10), 48 + (k % 10)>>
PercentText(p) == NatText(p \div 100) \o T(".") \o Two(p % 100) \o T("%")
DimStart == <<32, 27>> \o T("[2m")
DimEnd == <<27>> \o T("[0m")
Suffix(p, pct) ==
  DimStart \o (IF Less(p) = << >> THEN T("(No savings.)")
               ELSE T("(Saved ") \o BigNice(Less(p)) \o T(" bytes, ") \o PercentText(pct) \o T(".)")) \o DimEnd

PairSound(p) ==
  /\ Less(p) = << >> \/ More(p) = << >>
  /\ BigAdd(p.after, Less(p)) = BigAdd(p.before, More(p)) \/ ~IsSet(p)
=============================================================================
