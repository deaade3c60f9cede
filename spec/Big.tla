-------------------------------- MODULE Big ---------------------------------
(* Natural numbers of any size: little-endian digits to the base 1,000, the    *)
(* last one not zero (zero is the empty sequence).                             *)
EXTENDS Integers, Sequences, Ascii

BigBase == 1000
At(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
Longer(a, b) == IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)

RECURSIVE Trim(_)
Trim(a) == IF a = << >> THEN a ELSE IF a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a

(* Carries (or borrows) of digits that may be out of range. *)
RECURSIVE Carry(_, _, _)
Carry(a, i, c) == IF i > Len(a) THEN (IF c = 0 THEN << >> ELSE <<c % BigBase>> \o Carry(a, i, c \div BigBase))
                  ELSE <<(a[i] + c) % BigBase>> \o Carry(a, i + 1, (a[i] + c) \div BigBase)

Big(k) == Trim(Carry(<<k>>, 1, 0))
BigAdd(a, b) == Trim(Carry([i \in 1..Longer(a, b) |-> At(a, i) + At(b, i)], 1, 0))
(* For a not less than b. *)
BigSub(a, b) == Trim(Carry([i \in 1..Longer(a, b) |-> At(a, i) - At(b, i)], 1, 0))
BigScale(a, k) == Trim(Carry([i \in 1..Len(a) |-> a[i] * k], 1, 0))      \* k up to 2,000,000
RECURSIVE BigMul(_, _)
BigMul(a, b) == IF a = << >> THEN << >>
                ELSE BigAdd(BigScale(b, a[1]), LET r == BigMul(Tail(a), b) IN IF r = << >> THEN r ELSE <<0>> \o r)

RECURSIVE LessAt(_, _, _)
LessAt(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessAt(a, b, i - 1)
BigLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LessAt(a, b, Len(a))
BigLeq(a, b) == ~BigLess(b, a)
BigGap(a, b) == IF BigLess(a, b) THEN BigSub(b, a) ELSE BigSub(a, b)

RECURSIVE Pow(_, _)
Pow(x, k) == IF k = 0 THEN <<1>> ELSE IF k % 2 = 0 THEN LET h == Pow(x, k \div 2) IN BigMul(h, h) ELSE BigScale(Pow(x, k - 1), x)

Three(k) == <<48 + (k \div 100), 48 + ((k \div 10) % 10), 48 + (k % 10)>>
RECURSIVE Lower(_, _, _)
Lower(a, i, sep) == IF i = 0 THEN << >> ELSE sep \o Three(a[i]) \o Lower(a, i - 1, sep)
Written(a, sep) == IF a = << >> THEN T("0") ELSE NatText(a[Len(a)]) \o Lower(a, Len(a) - 1, sep)
BigText(a) == Written(a, << >>)
BigNice(a) == Written(a, <<44>>)     \* with a comma before every group of three digits
=============================================================================
