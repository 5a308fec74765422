------------------------------ MODULE ProxyTrace ------------------------------
(* Judges recorded requests to the real proxy, and what it called, against Proxy. *)
EXTENDS Proxy, Json, IOUtils, TLC
T == ndJsonDeserialize(IOEnv.TRACE)
TMaxU == "18446744073709551615"
VARIABLES l, w, env
Bad(why) == PrintT(<<"BAD", "C32", l, why>>)
Must(cond, why) == IF ~cond THEN Bad(why) ELSE TRUE
Seen(e) == e.w @@ w
Text(d) == IF Len(d) = 1 THEN d[1] ELSE d[1] \o " " \o d[2]
\* account creation is judged by its effect, not by the system calls used
RECURSIVE Real(_)
Real(s) == IF s = <<>> THEN <<>> ELSE IF Head(s).p = "sys" THEN Real(Tail(s)) ELSE <<Head(s)>> \o Real(Tail(s))
Same(c, s) == c.p = s.p /\ c.d = Text(s.d) /\ c.ac = s.ac
RECURSIVE Walk(_, _, _, _)
Walk(r, steps, cp, i) ==
  IF i > Len(steps) THEN [n |-> i - 1, ok |-> TRUE]
  ELSE IF ~Granted(r, steps[i]) THEN [n |-> i - 1, ok |-> FALSE]
  ELSE IF i =< Len(cp) /\ cp[i].ok THEN Walk(r, steps, cp, i + 1)
  ELSE [n |-> i, ok |-> FALSE]
Kept(v) == \A n \in DOMAIN v : v[n] = w[n]
Judge(e, f, cp, v) ==
  /\ CASE f.t = "rej" -> Must(~e.ok,        \* what a refused request may have called is undone with it
                                      <<"honoured although it must be refused", e.kind, cp>>)
       [] f.t = "ign" -> Must(e.ok /\ cp = <<>> /\ Kept(v), <<"must be answered without calling anything", e.kind, e.ok, cp>>)
       [] f.t = "relay" ->
            \E k \in {Walk(e, f.steps, cp, 1)} :
              LET cbok == \A i \in 1..Len(f.cb) : f.cb[i][2] # 9
                  cb == [i \in 1..Len(f.cb) |-> [ac |-> <<f.cb[i][1]>>, d |-> e.canon[f.lim], a |-> <<f.cb[i][2]>>]]
              IN /\ Must(Len(cp) = k.n, <<"calls missing or in excess", e.kind, Len(cp), k.n>>)
                 /\ Must(\A i \in 1..Len(cp) : i > Len(f.steps) \/ Same(cp[i], f.steps[i]), <<"a call differs", e.kind, cp, f.steps>>)
                 /\ Must(e.ok = (k.ok /\ cbok), <<IF e.ok THEN "honoured although a call was refused" ELSE "refused although every call went through", e.kind>>)
                 /\ Must(k.ok => e.cb = cb, <<"callbacks", e.cb, cb>>)
                 /\ Must(e.ok => /\ (f.kind = "init" /\ Has(e, "pda") =>
                                      LET oo == f.steps[Len(f.steps)].ac[1].n IN
                                      v[oo].o = "dex" /\ v[oo].len = 3228 /\ env.rent \preceq v[oo].lam /\ v[oo].k = "oo" /\ v[oo].own = oo)
                                 /\ (f.kind = "new" /\ Has(e, "pda") =>
                                      \A i \in 1..Len(f.steps) : f.steps[i].d[1] = "revoke" => v[f.steps[i].ac[1].n].del = "" /\ v[f.steps[i].ac[1].n].damt = Zero),
                         <<"effect", e.kind>>)
  /\ Must(e.ok \/ Kept(v), <<"refused, yet changed", e.kind>>)
  /\ Must(OnlyUser(e, w, v), <<"an open-orders account moved without its user", e.kind, Touched(w, v)>>)
  /\ Must(NoDelegate(w, v), <<"a wallet stayed delegated", e.kind>>)
  /\ Must(Charged(e, w, v), <<"a wallet was charged without its owner", e.kind>>)
  /\ Must(OwnOwner(w) => OwnOwner(v), <<"an open-orders account does not own itself", e.kind>>)
Step(e) ==
  CASE e.op = "world" -> /\ w' = e.w /\ env' = [bumps |-> e.bumps, rent |-> e.rent]
    [] e.op = "outside" -> w' = Seen(e) /\ UNCHANGED env
    [] e.op = "call" -> \E v \in {Seen(e)} : \E f \in {Fate(w, env, e)} : \E cp \in {Real(e.cpis)} : Judge(e, f, cp, v) /\ w' = v /\ UNCHANGED env
    \* around the proxy, straight to the exchange: nobody can sign for the proxy's accounts
    [] e.op = "direct" -> \E v \in {Seen(e)} : /\ Must(\A n \in Touched(w, v) : e.kind = "consume", <<"the exchange moved an account of the proxy", e.kind, Touched(w, v)>>)
                                               /\ Must(OwnOwner(w) => OwnOwner(v), <<"an account not its own", e.kind>>)
                                               /\ w' = v /\ UNCHANGED env
Init == l = 1 /\ w = [none |-> [o |-> ""]] /\ env = [rent |-> ""]
Next == l =< Len(T) /\ Step(T[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, w, env>>
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(T)>>)
=============================================================================
