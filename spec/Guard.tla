------------------------------- MODULE Guard -------------------------------
(***************************************************************************)
(* The assert-owner program, as it is used: a transaction names an account  *)
(* and the program that must own it, ahead of a payment to that account.    *)
(* All of a transaction happens or none. Accounts may change owner between  *)
(* transactions, at anybody's instigation.                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences
\* a key is the sequence of its 32 bytes; the instruction data is any sequence of bytes
KeyLen == 32
\* own: account -> key of the program owning it; ac: accounts named, d: data
Accepts(own, ac, d) == Len(ac) >= 1 /\ Len(d) = KeyLen /\ d = own[ac[1]]
\* the guarded payment of one coin to the first account named (if any)
Pay(own, bal, ac, d) == IF Accepts(own, ac, d) THEN [bal EXCEPT ![ac[1]] = @ + 1] ELSE bal
=============================================================================
