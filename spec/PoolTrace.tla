------------------------------ MODULE PoolTrace ------------------------------
(* Judges recorded requests to the real pool code against Pool. *)
EXTENDS Pool, Json, IOUtils, TLC
T == ndJsonDeserialize(IOEnv.TRACE)
TMaxU == "18446744073709551615"
TMaxI == "9223372036854775807"
VARIABLES l, w
On(p) == ("P_" \o p) \in DOMAIN IOEnv
Bad(p, why) == PrintT(<<"BAD", p, l, why>>)
\* a listed finding (known-findings.txt), recognised by exactly what happened
Known(p, key) == IF On(p) THEN PrintT(<<"KNOWN", p, l, key>>) ELSE TRUE
Must(p, cond, why) == IF On(p) /\ ~cond THEN Bad(p, why) ELSE TRUE
\* the world observed after a line
Seen(e) == IF "w" \in DOMAIN e THEN e.w ELSE IF e.d = <<>> THEN w ELSE e.d @@ w
SetOf(s) == {s[i] : i \in 1..Len(s)}
Req(e) == [e.r EXCEPT !.sg = SetOf(@)]
Diff(x, y) == {n \in DOMAIN x : x[n] # y[n]}
Shorten(x, y) == [n \in Diff(x, y) |-> y[n]]
\* accounts whose content differs from the specified one, by what they are to the pool
FeeSide(x, y, ns) == {n \in Diff(x, y) : n \in ns}
Verdict(e0, want, r) ==
  LET e == [op |-> e0.op, ok |-> e0.ok, w |-> Seen(e0)] IN
  LET ok == want # <<>>
      v == IF e.ok /\ ok THEN want[1] ELSE w
      d == Diff(v, e.w)
      pool == IF r.ac # <<>> /\ IsPool(w, r.ac[1]) THEN w[r.ac[1]].c ELSE [k |-> "none"]
      feeside == IF pool.k = "pool" THEN {n \in DOMAIN w : w[n].c.k = "token" /\ w[n].c.mint = pool.mint} ELSE {}
      mine == CASE e.op = "exec" -> {"C28", "C30"} \cup (IF pool.k = "pool" /\ pool.admin # "" THEN {"C31"} ELSE {})
                [] e.op = "init" -> {"C30"} \cup (IF RateOk(r.rate) THEN {} ELSE {"C29"})
                [] OTHER -> {"C31"}
  IN /\ \A p \in mine \cup (IF e.op = "exec" THEN {"C29"} ELSE {}) : Must(p, e.ok \/ ~ok, <<"refused although in order", r>>)
     /\ \A p \in mine : Must(p, ok \/ ~e.ok, <<"honoured although it must be refused", r>>)
     /\ \A p \in {"C28", "C30", "C31"} : Must(p, e.ok \/ d = {}, <<"refused, yet changed", r, [n \in d |-> e.w[n]]>>)
     /\ (e.ok /\ ok => /\ Must("C28", d \ feeside = {}, <<"assets or supply differ", r, [n \in d |-> <<v[n], e.w[n]>>]>>)
                       /\ Must("C29", d \cap feeside = {}, <<"pool tokens differ", r, [n \in d |-> <<v[n], e.w[n]>>]>>)
                       /\ Must("C30", d = {}, <<"accounts differ", r, [n \in d |-> <<v[n], e.w[n]>>]>>)
                       /\ Must("C31", d = {} \/ pool.k # "pool" \/ (e.op # "admin" /\ pool.admin = ""), <<"accounts differ", r, [n \in d |-> <<v[n], e.w[n]>>]>>))
     /\ (e.op = "exec" /\ r.ac # <<>> => Must("C28", NoDilution(w, e.w, r.ac[1]), <<"dilution", r>>))
     /\ (r.ac # <<>> /\ e.op # "init" => Must("C31", Guarded(w, r.ac[1]) => Guarded(e.w, r.ac[1]), <<"open while assets are delegated", r>>))
Step(e) ==
  CASE e.op = "world" -> w' = Seen(e)                             \* done by others, outside the pool program
    [] e.op = "exec" -> \E r \in {Req(e)} : \E want \in {Exec(w, r)} : Verdict(e, want, r) /\ w' = Seen(e)
    [] e.op = "init" -> \E r \in {Req(e)} : \E want \in {Initialize(w, r)} : Verdict(e, want, r) /\ w' = Seen(e)
    [] e.op = "admin" -> /\ \E r \in {Req(e)} : \E want \in {Admin(w, r)} :
                              IF e.ok /\ want = <<>> /\ TakenAnyway(w, r) = <<Seen(e)>> THEN Known("C31", "open-pool-takes-delegated-vault")
                              ELSE IF ~e.ok /\ want # <<>> /\ AddsDelegated(w, r) /\ Seen(e) = w THEN TRUE   \* caution is allowed
                              ELSE Verdict(e, want, r)
                         /\ w' = Seen(e)
    [] e.op = "quote" -> /\ \E r \in {Req(e)} : \E q \in {Quote(w, r)} :
                            /\ \A p \in {"C28", "C30"} : Must(p, e.ok = (q # <<>>), <<IF e.ok THEN "quoted although it must be refused" ELSE "quote refused although in order", r>>)
                            /\ Must("C28", ~e.ok \/ q = <<>> \/ e.buf = q[1], <<"wrong quote", r, q, e.buf>>)
                            /\ \A p \in {"C28", "C30"} : Must(p, Seen(e) = w, <<"a quote changed", Shorten(w, Seen(e))>>)
                         /\ w' = Seen(e)
    [] e.op = "raw" -> /\ Must("C30", ~e.ok /\ Seen(e) = w, <<"undecodable request honoured", e.b>>) /\ w' = Seen(e)
Init == l = 1 /\ w = [none |-> [o |-> ""]]
Next == l =< Len(T) /\ Step(T[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, w>>
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(T)>>)
=============================================================================
