------------------------------- MODULE Fees -------------------------------
(* Taker fees, budgets and fee tiers. Parameters are the fixed-point unit, the rate denominator and the  *)
(* per-tier rate numerators, so that the same definitions serve the deployed constants (trace checking)  *)
(* and small ones (exhaustive model checking).                                                           *)
EXTENDS Num
CONSTANTS FPOne,      \* fixed-point one (deployed: 2^64)
          FeeDen,     \* rate denominator (deployed: 100000, i.e. tenths of a basis point)
          FeeK,       \* <<numerator per tier>>, tier 0 first
          SrmSteps,   \* <<SRM balance needed for tiers 1, 2, ...>>
          TierMsrm, TierStable

CeilDiv(a, b) == (a \oplus (b \ominus One)) \oslash b

RateTab == [i \in 1..Len(FeeK) |-> (FeeK[i] \otimes FPOne) \oslash FeeDen]
Rate(t) == RateTab[t + 1]

\* fee of a taker trading quote amount q
TakerFee(t, q) == CeilDiv(Rate(t) \otimes q, FPOne)
\* largest x with x * (1 + rate) <= q
Spendable(t, q) == (q \otimes FPOne) \oslash (FPOne \oplus Rate(t))
\* referrer's fifth
RefShare(f) == f \oslash Lit(5)

SrmTier(bal) ==
  LET reached == {i \in 1..Len(SrmSteps) : SrmSteps[i] \preceq bal}
  IN  IF reached = {} THEN 0 ELSE CHOOSE i \in reached : \A j \in reached : j =< i
=============================================================================
