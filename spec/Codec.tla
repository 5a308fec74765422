------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* The wire format of exchange instructions: one version byte (0), a        *)
(* little-endian 32-bit opcode, then the opcode's fields. An instruction is *)
(* <<opcode, value, ...>>, values in field order; decoding a byte string    *)
(* yields <<instruction>> or <<>> (rejected).                               *)
(***************************************************************************)
EXTENDS Num, FiniteSets

B256 == Lit(256)
RECURSIVE LE(_, _, _)
LE(b, at, n) == IF n = 0 THEN Zero ELSE Lit(b[at]) \oplus (B256 \otimes LE(b, at + 1, n - 1))
RECURSIVE Bytes(_, _)
Bytes(v, n) == IF n = 0 THEN <<>> ELSE
               LET q == v \oslash B256 IN <<Small(v \ominus (B256 \otimes q))>> \o Bytes(q, n - 1)
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))

\* field kinds: width in bytes and admissible values
Width == [side |-> 4, stb |-> 4, type |-> 4, nz |-> 8, u64 |-> 8, i64 |-> 8, u16 |-> 2, u8 |-> 1, u128 |-> 16]
Admits(f, v) == CASE f = "side" -> v \prec Lit(2)
                  [] f \in {"stb", "type"} -> v \prec Lit(3)
                  [] f = "nz" -> v # Zero
                  [] OTHER -> TRUE

OrderF == <<"side", "nz", "nz", "nz", "stb", "type", "u64", "u16", "i64">>
NoExpiry == Bytes(MaxTs, 8)
Fields ==
  [d \in 0..17 \cup {19} |->
    CASE d = 0 -> <<"u64", "u64", "u16", "u64", "u64">>                        \* initialize market
      [] d = 1 -> <<"side", "nz", "nz", "type", "u64">>                        \* new order, first form
      [] d \in {2, 3, 16, 17} -> <<"u16">>                                     \* match, consume, prune, consume permissioned
      [] d = 4 -> <<"side", "u128", "u64", "u64", "u64", "u64", "u8">>         \* cancel, first form
      [] d \in {5, 7, 8, 14, 15} -> <<>>                                       \* settle, disable, sweep, close, init open orders
      [] d \in {6, 12} -> <<"u64">>                                            \* cancel by client id
      [] d = 9 -> <<"side", "nz", "nz", "type", "u64", "stb">>                 \* new order, second form
      [] d \in {10, 19} -> OrderF                                              \* new order, replace
      [] d = 11 -> <<"side", "u128">>                                          \* cancel
      [] d = 13 -> <<"side", "nz", "nz", "nz", "u64", "u64", "u16">>]          \* send take
MaxOrders == 8
MaxIds == 8
FLen(fs) == Sum([i \in 1..Len(fs) |-> Width[fs[i]]])
OrderLen == FLen(OrderF)
MaxLen == 5 + 8 + MaxOrders * OrderLen

\* values of the fields fs found from position at on; <<>> if any is inadmissible
Parse(b, at, fs) ==
  LET off == [i \in 1..Len(fs) |-> at + FLen(SubSeq(fs, 1, i - 1))]
      v == [i \in 1..Len(fs) |-> LE(b, off[i], Width[fs[i]])]
  IN IF \A i \in 1..Len(fs) : Admits(fs[i], v[i]) THEN <<v>> ELSE <<>>

\* lengths (of the whole string) an opcode may have
Lengths(d) ==
  CASE d \in DOMAIN Fields -> IF d = 10 THEN {5 + OrderLen, 5 + OrderLen - 8} ELSE {5 + FLen(Fields[d])}
    [] d = 18 -> {5 + 8 * k : k \in 0..MaxIds}
    [] d = 20 -> {5 + 8 + OrderLen * k : k \in 0..MaxOrders}
    [] OTHER -> {}

Decode(b) ==
  IF Len(b) < 5 THEN <<>> ELSE
  IF b[1] # 0 \/ b[5] # 0 \/ b[4] # 0 \/ b[3] # 0 THEN <<>> ELSE
  LET d == b[2] n == Len(b) - 5 IN
  IF Len(b) \notin Lengths(d) THEN <<>> ELSE
  CASE d = 18 -> << <<d>> \o [i \in 1..MaxIds |-> IF 8 * i =< n THEN LE(b, 6 + 8 * (i - 1), 8) ELSE Zero] >>
    [] d = 20 -> LET k == (n - 8) \div OrderLen
                     os == [i \in 1..k |-> Parse(b, 14 + OrderLen * (i - 1), OrderF)]
                 IN IF LE(b, 6, 8) # Lit(k) \/ \E i \in 1..k : os[i] = <<>> THEN <<>>
                    ELSE << <<d>> \o Cat([i \in 1..k |-> os[i][1]]) >>
    [] OTHER -> LET c == IF n = OrderLen - 8 /\ d = 10 THEN b \o NoExpiry ELSE b     \* an order without expiry
                    p == Parse(c, 6, Fields[d])
                IN IF p = <<>> THEN <<>> ELSE << <<d>> \o p[1] >>

FieldsOf(i) == CASE i[1] = 18 -> [k \in 1..MaxIds |-> "u64"]
                 [] i[1] = 20 -> Cat([k \in 1..((Len(i) - 1) \div Len(OrderF)) |-> OrderF])
                 [] OTHER -> Fields[i[1]]
Encode(i) ==
  LET fs == FieldsOf(i)
      body == Cat([k \in 1..Len(fs) |-> Bytes(i[k + 1], Width[fs[k]])])
  IN <<0, i[1], 0, 0, 0>> \o (IF i[1] = 20 THEN Bytes(Lit((Len(i) - 1) \div Len(OrderF)), 8) ELSE <<>>) \o body
=============================================================================
