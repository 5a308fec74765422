---------------------------- MODULE CreateTrace ----------------------------
(* Judges recorded attempts at creating markets with the real program. *)
EXTENDS Create, Json, IOUtils, TLC
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, w
Bad(why) == PrintT(<<"BAD", "C18", l, why>>)
Must(cond, why) == IF cond THEN TRUE ELSE Bad(why)
Diff(x, y) == {n \in DOMAIN x : x[n] # y[n]}
Step(e) ==
  CASE e.op = "world" -> w' = e.w                                 \* accounts as somebody made them
    [] e.op = "create" ->
         /\ Must(e.ok = Creatable(w, e.a), <<IF e.ok THEN "created although it must not be" ELSE "refused although well-formed", e.a, [i \in 1..Len(e.a.ac) |-> w[e.a.ac[i]]]>>)
         /\ Must(e.w = IF e.ok THEN After(w, e.a) ELSE w, <<"world after", e.a, [n \in Diff(e.w, IF e.ok THEN After(w, e.a) ELSE w) |-> e.w[n]]>>)
         /\ Must(e.others, <<"other accounts or balances changed", e.a>>)
         /\ Must(Sound(e.w), <<"unsound market", e.a>>)
         /\ w' = e.w
    [] OTHER -> Bad(e) /\ UNCHANGED w
Init == l = 1 /\ w = [none |-> [o |-> "", len |-> 0, rent |-> FALSE, c |-> Blank]]
Next == l =< Len(T) /\ Step(T[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, w>>
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(T)>>)
=============================================================================
