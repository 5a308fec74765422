----------------------------- MODULE GuardTrace -----------------------------
(* Judges recorded runs of the real assert-owner program. *)
EXTENDS Guard, Json, IOUtils, TLC
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, own, bal
Bad(why) == PrintT(<<"BAD", "C35", l, why>>)
Must(cond, why) == IF cond THEN TRUE ELSE Bad(why)
With(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Step(e) ==
  CASE e.op = "own" -> own' = With(own, e.a, e.k) /\ bal' = (IF e.a \in DOMAIN bal THEN bal ELSE With(bal, e.a, 0))
    [] e.op = "pay" ->
         /\ Must(e.ok = Accepts(own, e.ac, e.d), <<IF e.ok THEN "passed" ELSE "refused", e.ac, e.d, IF e.ac = <<>> THEN <<>> ELSE own[e.ac[1]]>>)
         /\ Must(e.bal = (IF e.ac = <<>> THEN 0 ELSE Pay(own, bal, e.ac, e.d)[e.ac[1]]), <<"paid", e.ac, e.bal>>)
         /\ Must(e.same, <<"accounts changed", e.ac>>)
         /\ own' = own
         /\ bal' = IF e.ac = <<>> THEN bal ELSE With(bal, e.ac[1], e.bal)
Init == l = 1 /\ own = <<>> /\ bal = <<>>
Next == l =< Len(T) /\ Step(T[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, own, bal>>
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(T)>>)
=============================================================================
