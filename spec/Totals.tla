------------------------------- MODULE Totals -------------------------------
(* Which numbers a progress bar accepts as its total, by integer type, and     *)
(* what it then shows.                                                         *)
EXTENDS Big, Json, FiniteSets
CONSTANTS Far,        \* how far around the powers of two to go
          More        \* further magnitudes

Limit == BigSub(Pow(2, 32), <<1>>)          \* 4,294,967,295

Types == {
  [name |-> "u8",   bits |-> 8,   signed |-> FALSE, nz |-> FALSE], [name |-> "u16",   bits |-> 16, signed |-> FALSE, nz |-> FALSE],
  [name |-> "u32",  bits |-> 32,  signed |-> FALSE, nz |-> FALSE], [name |-> "u64",   bits |-> 64, signed |-> FALSE, nz |-> FALSE],
  [name |-> "u128", bits |-> 128, signed |-> FALSE, nz |-> FALSE], [name |-> "usize", bits |-> 64, signed |-> FALSE, nz |-> FALSE],
  [name |-> "i8",   bits |-> 8,   signed |-> TRUE,  nz |-> FALSE], [name |-> "i16",   bits |-> 16, signed |-> TRUE,  nz |-> FALSE],
  [name |-> "i32",  bits |-> 32,  signed |-> TRUE,  nz |-> FALSE], [name |-> "i64",   bits |-> 64, signed |-> TRUE,  nz |-> FALSE],
  [name |-> "i128", bits |-> 128, signed |-> TRUE,  nz |-> FALSE], [name |-> "isize", bits |-> 64, signed |-> TRUE,  nz |-> FALSE],
  [name |-> "nz8",   bits |-> 8,   signed |-> FALSE, nz |-> TRUE], [name |-> "nz16",   bits |-> 16, signed |-> FALSE, nz |-> TRUE],
  [name |-> "nz32",  bits |-> 32,  signed |-> FALSE, nz |-> TRUE], [name |-> "nz64",   bits |-> 64, signed |-> FALSE, nz |-> TRUE],
  [name |-> "nz128", bits |-> 128, signed |-> FALSE, nz |-> TRUE], [name |-> "nzsize", bits |-> 64, signed |-> FALSE, nz |-> TRUE],
  [name |-> "reset", bits |-> 32,  signed |-> FALSE, nz |-> FALSE] }

(* Numbers: sign and magnitude. *)
Has(t, neg, m) ==
  IF neg THEN t.signed /\ m # << >> /\ BigLeq(m, Pow(2, t.bits - 1))
  ELSE BigLess(m, Pow(2, IF t.signed THEN t.bits - 1 ELSE t.bits)) /\ ~(t.nz /\ m = << >>)

Outcome(neg, m) ==
  IF m = << >> THEN "empty" ELSE IF neg \/ BigLess(Limit, m) THEN "overflow" ELSE "ok"

Magnitudes == TLCEval(
  {Big(k) : k \in 0..3} \cup {BigAdd(Pow(2, k), Big(d)) : k \in 1..128, d \in 0..Far}
  \cup {BigSub(Pow(2, k), Big(d)) : k \in 3..128, d \in 1..Far}
  \cup {Pow(10, k) : k \in 0..38} \cup {BigSub(Pow(10, k), <<1>>) : k \in 1..38}
  \cup {BigScale(Pow(2, 32), k) : k \in {3, 5, 7, 1000}} \cup {BigAdd(BigMul(Pow(2, 32), Big(k)), <<1>>) : k \in {3, 255, 65536}}
  \cup {More[i] : i \in 1..Len(More)})

VARIABLES stage, type, neg, mag
Init == stage = 0 /\ type = "" /\ neg = FALSE /\ mag = << >>
Pick == stage = 0 /\ stage' = 1 /\ \E t \in Types : type' = t.name /\ UNCHANGED <<neg, mag>>
TypeOf(n) == CHOOSE t \in Types : t.name = n
Offer == stage = 1 /\ stage' = 2 /\ type' = type
         /\ \E m \in Magnitudes, b \in BOOLEAN : Has(TypeOf(type), b, m) /\ mag' = m /\ neg' = b
Next == Pick \/ Offer
Spec == Init /\ [][Next]_<<stage, type, neg, mag>>

(* What is counted: "1 one", "1,234 many". *)
Counted(m) == BigNice(m) \o (IF m = <<1>> THEN T(" one") ELSE T(" many"))
Sound == stage = 2 =>
  /\ (Outcome(neg, mag) = "ok") <=> (~neg /\ BigLeq(<<1>>, mag) /\ BigLeq(mag, <<295, 967, 294, 4>>))
  /\ (TypeOf(type).nz => Outcome(neg, mag) # "empty")
Emit == stage = 2 => PrintT("V " \o ToJson([t |-> type, n |-> (IF neg THEN <<45>> ELSE << >>) \o BigText(mag), r |-> Outcome(neg, mag),
                                           s |-> IF Outcome(neg, mag) = "ok" THEN Counted(mag) ELSE << >>]))
=============================================================================
