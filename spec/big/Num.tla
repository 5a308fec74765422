-------------------------------- MODULE Num --------------------------------
(* Unbounded integers written as decimal strings. TLC evaluates them through Num.java (BigInteger);     *)
(* the sibling module in ../int gives the same operators on TLC's own integers for model checking.      *)
EXTENDS Integers, Sequences
BAdd(a, b) == CHOOSE x \in STRING : TRUE
BSub(a, b) == CHOOSE x \in STRING : TRUE
BMul(a, b) == CHOOSE x \in STRING : TRUE
BDiv(a, b) == CHOOSE x \in STRING : TRUE     \* floor, b > 0
BLt(a, b)  == CHOOSE x \in BOOLEAN : TRUE
BLe(a, b)  == CHOOSE x \in BOOLEAN : TRUE
Lit(n)     == CHOOSE x \in STRING : TRUE     \* from a small TLC integer
Small(a)   == CHOOSE x \in Int : TRUE        \* to a small TLC integer

a \oplus b   == BAdd(a, b)
a \ominus b  == BSub(a, b)
a \otimes b  == BMul(a, b)
a \oslash b  == BDiv(a, b)
a \prec b    == BLt(a, b)
a \preceq b  == BLe(a, b)
NMin(a, b)   == IF BLe(a, b) THEN a ELSE b
Zero == "0"
One  == "1"
MaxTs == "9223372036854775807"
IdBase == "18446744073709551616"             \* order id = price * IdBase + rank
=============================================================================
