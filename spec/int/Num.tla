-------------------------------- MODULE Num --------------------------------
EXTENDS Integers, Sequences
a \oplus b   == a + b
a \ominus b  == a - b
a \otimes b  == a * b
a \oslash b  == a \div b
a \prec b    == a < b
a \preceq b  == a =< b
NMin(a, b)   == IF a =< b THEN a ELSE b
Lit(n)   == n
Small(a) == a
Zero == 0
One  == 1
MaxTs == 1000
IdBase == 4096
=============================================================================
