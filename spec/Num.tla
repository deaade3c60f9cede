-------------------------------- MODULE Num ---------------------------------
(* Natural numbers beyond TLC's integers, as pairs <<high, low>> to the base   *)
(* 100,000: enough for 32-bit counts and ten thousand times as much.           *)
EXTENDS Integers, Sequences, Ascii

NumBase == 100000
Norm(h, l) == <<h + l \div NumBase, l % NumBase>>
Num(k) == Norm(0, k)
Plus(a, b) == Norm(a[1] + b[1], a[2] + b[2])
Less(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
Leq(a, b) == ~Less(b, a)
Minus(a, b) == IF a[2] >= b[2] THEN <<a[1] - b[1], a[2] - b[2]>> ELSE <<a[1] - b[1] - 1, a[2] + NumBase - b[2]>>
Gap(a, b) == IF Less(a, b) THEN Minus(b, a) ELSE Minus(a, b)
Times(a, k) == Norm(a[1] * k, a[2] * k)

RECURSIVE Padded(_, _)
Padded(n, w) == IF w = 0 THEN << >> ELSE Append(Padded(n \div 10, w - 1), 48 + (n % 10))
Decimal(a) == IF a[1] = 0 THEN NatText(a[2]) ELSE NatText(a[1]) \o Padded(a[2], 5)

(* With a comma before every group of three digits. *)
RECURSIVE Grouped(_)
Grouped(d) == IF Len(d) <= 3 THEN d ELSE Grouped(SubSeq(d, 1, Len(d) - 3)) \o <<44>> \o SubSeq(d, Len(d) - 2, Len(d))
Nice(a) == Grouped(Decimal(a))
=============================================================================
