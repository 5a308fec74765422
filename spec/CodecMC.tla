------------------------------ MODULE CodecMC ------------------------------
(* Every instruction over boundary values of its fields, and every byte string one edit away from its  *)
(* encoding: decoding inverts encoding, and what is not an encoding (or a documented short form) is    *)
(* rejected. Each byte string visited is printed, to be decoded by the real program.                   *)
EXTENDS Codec, TLC, IOUtils
MaxU64 == "18446744073709551615"
MaxU128 == "340282366920938463463374607431768211455"
Vals == [side |-> {"0", "1"}, stb |-> {"0", "1", "2"}, type |-> {"0", "1", "2"}, nz |-> {"1", MaxU64},
         u64 |-> {"0", "256", MaxU64}, i64 |-> {"0", MaxU64}, u16 |-> {"0", "513"}, u8 |-> {"0", "255"}, u128 |-> {"0", MaxU128}]
RECURSIVE Prod(_)
Prod(fs) == IF fs = <<>> THEN {<<>>} ELSE {<<v>> \o t : v \in Vals[Head(fs)], t \in Prod(Tail(fs))}
OrderS == {<<"0", "1", MaxU64, "7", "2", "1", "9", "3", MaxU64>>, <<"1", "5", "1", MaxU64, "0", "2", "0", "0", "0">>}
RECURSIVE Seqs(_, _)
Seqs(S, n) == IF n = 0 THEN {<<>>} ELSE {x \o t : x \in S, t \in Seqs(S, n - 1)}
Small8 == {[k \in 1..8 |-> IF k = j THEN v ELSE IF k < j THEN "1" ELSE "0"] : j \in 1..8, v \in {"0", "2", MaxU64}}
OfOp(d) == CASE d \in DOMAIN Fields -> {<<d>> \o v : v \in Prod(Fields[d])}
             [] d = 18 -> {<<d>> \o v : v \in Small8}
             [] d = 20 -> {<<d>> \o v : v \in UNION {Seqs(OrderS, n) : n \in 0..3} \cup {Cat([k \in 1..8 |-> o]) : o \in OrderS}}

Edits(b) ==
  {b} \cup {SubSeq(b, 1, Len(b) - 1), b \o <<0>>, b \o <<7>>}
  \cup {[b EXCEPT ![k] = v] : k \in 1..(IF Len(b) < 70 THEN Len(b) ELSE 30), v \in {0, 3, 255}}
  \cup (IF Len(b) > 8 THEN {SubSeq(b, 1, Len(b) - 8)} ELSE {})

VARIABLES op, stage, ins, bs
vars == <<op, stage, ins, bs>>
Init == op \in 0..20 /\ stage = 0 /\ ins = <<>> /\ bs = <<>>
Pick == stage = 0 /\ \E i \in OfOp(op) : ins' = i /\ bs' = Encode(i) /\ stage' = 1 /\ UNCHANGED op
\* the neighbours of one instruction in forty (by a fixed hash), and of all short ones
Hash == (op + Sum([k \in 1..Len(bs) |-> bs[k] * k])) % 40
Edit == stage = 1 /\ (Hash = 0 \/ Len(ins) < 4) /\ \E c \in Edits(bs) : bs' = c /\ stage' = 2 /\ UNCHANGED <<op, ins>>
Next == Pick \/ Edit
Spec == Init /\ [][Next]_vars

RoundTrip == stage = 1 => Decode(bs) = <<ins>>
\* whatever is accepted is the encoding of what it is decoded to, up to the two short forms
Strict == stage > 0 => LET d == Decode(bs) IN
  d # <<>> => \/ Encode(d[1]) = bs
              \/ d[1][1] = 10 /\ Len(bs) = 5 + OrderLen - 8 /\ Encode(d[1]) = bs \o NoExpiry
              \/ d[1][1] = 18 /\ SubSeq(Encode(d[1]), 1, Len(bs)) = bs /\ \A k \in (Len(bs) + 1)..Len(Encode(d[1])) : Encode(d[1])[k] = 0
Emit == IF stage > 0 THEN PrintT("BYTES " \o ToString(bs)) ELSE TRUE
=============================================================================
