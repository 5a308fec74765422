------------------------------ MODULE ProxyMC ------------------------------
(***************************************************************************)
(* Bounded exploration of the proxy in front of a small exchange: two       *)
(* users, two markets, every kind of request in order and with one thing    *)
(* out of order. For every distinct state one history is printed, followed  *)
(* by every request refused there, to be replayed on the real code.         *)
(***************************************************************************)
EXTENDS Proxy, TLC
CONSTANTS MaxSteps
XMaxU == 1000000
VARIABLES w, cfg, hist
vars == <<w, cfg, hist>>
Cfgs == {<<"pda">>, <<"tag", "ref", "pda", "auth">>}
Us == {"U1", "U2"}
Ms == {"M1", "M2"}
Other(u) == IF u = "U1" THEN "U2" ELSE "U1"
OtherM(m) == IF m = "M1" THEN "M2" ELSE "M1"
OOs == {OO(m, u) : m \in Ms, u \in Us}
Rest == {"dex", "dex2", "sys", "rent", "spl", "TAG", "X", "R"} \cup Us \cup {OO(m, u) \o "~" : m \in Ms, u \in Us}
        \cup {m \o s : m \in Ms, s \in {".ia", ".ia~", ".pa", ".ca", ".rq", ".eq", ".bids", ".asks", ".cv", ".pv", ".vs"}}
Toks == {"U1.0", "U1.1", "U2.0", "U2.1", "R.1", "X.1"}
OwnerOf(t) == CASE t \in {"U1.0", "U1.1"} -> "U1" [] t \in {"U2.0", "U2.1"} -> "U2" [] t = "R.1" -> "R" [] OTHER -> "X"
Rent1 == 10
Empty == [o |-> "sys", len |-> 0, lam |-> 0, k |-> "raw", r |-> FALSE, lot |-> 0, own |-> "", mkt |-> "", n |-> 0, f |-> 0]
World0 == [x \in OOs \cup Rest \cup Toks \cup Ms |->
  IF x \in Toks THEN [o |-> "spl", len |-> 165, lam |-> 1, k |-> "token", r |-> x = "R.1", lot |-> 0, own |-> OwnerOf(x), amt |-> 9, del |-> "", damt |-> 0]
  ELSE IF x \in Ms THEN [Empty EXCEPT !.o = "dex", !.len = 388, !.lot = 1]
  ELSE IF x \in Us THEN [Empty EXCEPT !.lam = 100] ELSE Empty]
Env == [bumps |-> [x \in OOs \cup {OO(m, u) \o "~" : m \in Ms, u \in Us} \cup {m \o s : m \in Ms, s \in {".ia", ".ia~"}} |->
                     IF x \in OOs \/ x \in {m \o ".ia" : m \in Ms} THEN 255 ELSE 254], rent |-> Rent1]

(* ---- requests ---- *)
A(n) == M(n, FALSE, FALSE)
W(n) == M(n, FALSE, TRUE)
S(n) == M(n, TRUE, FALSE)
Vars(k) == {"ok", "unsigned", "nodex", "more", "tag"}
           \cup (IF k \in {"consumep"} THEN {} ELSE {"other", "cross", "twin"})
           \cup (IF k \in {"init", "new", "cancel", "cancelc", "settle", "close"} THEN {"thief"} ELSE {})
           \cup (IF k = "settle" THEN {"refx", "refx+", "ref-"} ELSE {}) \cup (IF k = "new" THEN {"payer"} ELSE {}) \cup (IF k = "init" THEN {"ia"} ELSE {})
Body(k, m, u0, oo) ==
  LET u == M(u0[1], u0[2], FALSE) IN
  CASE k = "init" -> <<A("dex"), A("sys"), W(oo), M(u0[1], u0[2], TRUE), A(m), A("rent"), A(m \o ".ia")>>
    [] k = "new" -> <<W(m), W(oo), W(m \o ".rq"), W(m \o ".eq"), W(m \o ".bids"), W(m \o ".asks"), W(u0[3] \o ".0"), u, W(m \o ".cv"), W(m \o ".pv"), A("spl"), A("rent")>>
    [] k \in {"cancel", "cancelc"} -> <<A(m), W(m \o ".bids"), W(m \o ".asks"), W(oo), u, W(m \o ".eq")>>
    [] k = "settle" -> <<W(m), W(oo), u, W(m \o ".cv"), W(m \o ".pv"), W(u0[1] \o ".0"), W(u0[1] \o ".1"), A(m \o ".vs"), A("spl"), W("R.1")>>
    [] k = "close" -> <<W(oo), u, W(u0[1]), A(m)>>
    [] k = "consumep" -> <<W(oo), W(m), W(m \o ".eq"), A(m \o ".ca")>>
    [] k = "prune" -> <<W(m), W(m \o ".bids"), W(m \o ".asks"), A(m \o ".pa"), W(oo), A(u0[1]), W(m \o ".eq")>>
Request(k, m, u, v) ==
  LET oo == CASE v = "other" -> OO(m, Other(u)) [] v = "cross" -> OO(OtherM(m), u) [] v = "twin" -> OO(m, u) \o "~" [] OTHER -> OO(m, u)
      who == <<IF v = "thief" THEN Other(u) ELSE u, v # "unsigned", IF v = "payer" THEN Other(u) ELSE IF v = "thief" THEN Other(u) ELSE u>>
      b0 == Body(k, m, who, oo)
      b1 == CASE v = "refx" -> [b0 EXCEPT ![10].n = "X.1"]
              [] v = "refx+" -> Append([b0 EXCEPT ![10].n = "X.1"], W("R.1"))
              [] v = "ref-" -> SubSeq(b0, 1, 9)
              [] v = "ia" -> [b0 EXCEPT ![7].n = m \o ".ia~"]
              [] v = "more" -> Append(b0, A("X"))
              [] OTHER -> b0
      tagged == \E i \in 1..Len(cfg) : cfg[i] = "tag"
      b2 == IF tagged THEN <<A(IF v = "tag" THEN "X" ELSE "TAG")>> \o b1 ELSE b1
  IN [cfg |-> cfg, ac |-> <<A(IF v = "nodex" THEN "dex2" ELSE "dex")>> \o b2, kind |-> k, ask |-> TRUE, qty |-> 1, pc |-> 1, cid |-> 0, body |-> 2,
      data |-> (IF k = "init" THEN <<0, Env.bumps[oo], IF v = "ia" THEN 254 ELSE 255>> ELSE <<1>>) \o <<9, 9>>, canon |-> <<"a", "b", "c">>]

(* ---- the exchange and the token program, as far as needed: <<w'>> or <<>> ---- *)
Spend(x, t, who) == x[t].k = "token" /\ x[t].amt > 0 /\ (x[t].own = who \/ (x[t].del = who /\ x[t].damt >= 1))
OpenOf(x, oo, owner, m) == x[oo].k = "oo" /\ x[oo].own = owner.n /\ owner.s /\ x[oo].mkt = m
Exchange(x, k, a) ==
  CASE k = "init" -> IF Len(a) # 5 \/ ~a[2].s \/ ~a[5].s \/ a[5].n # a[3].n \o ".ia" \/ x[a[1].n].o # "dex" \/ x[a[1].n].k = "oo" THEN <<>>
                     ELSE <<[x EXCEPT ![a[1].n].k = "oo", ![a[1].n].own = a[2].n, ![a[1].n].mkt = a[3].n]>>
    [] k = "new" -> IF Len(a) \notin {12, 13} \/ (Len(a) = 13 /\ x[a[13].n].o # "spl") \/ ~OpenOf(x, a[2].n, a[8], a[1].n) \/ ~Spend(x, a[7].n, a[8].n) THEN <<>>
                    ELSE <<[x EXCEPT ![a[2].n].n = @ + 1, ![a[7].n].amt = @ - 1, ![a[7].n].damt = IF x[a[7].n].del = a[8].n THEN @ - 1 ELSE @,
                                     ![a[7].n].del = IF x[a[7].n].del = a[8].n /\ x[a[7].n].damt = 1 THEN "" ELSE @]>>
    [] k \in {"cancel", "cancelc"} -> IF ~OpenOf(x, a[4].n, a[5], a[1].n) \/ x[a[4].n].n = 0 THEN <<>>
                                      ELSE <<[x EXCEPT ![a[4].n].n = @ - 1, ![a[4].n].f = @ + 1]>>
    [] k = "settle" -> IF Len(a) \notin {9, 10} \/ ~OpenOf(x, a[2].n, a[3], a[1].n) THEN <<>>
                       ELSE <<[x EXCEPT ![a[6].n].amt = @ + x[a[2].n].f, ![a[2].n].f = 0]>>
    [] k = "close" -> IF ~OpenOf(x, a[1].n, a[2], a[4].n) \/ x[a[1].n].n > 0 \/ x[a[1].n].f > 0 THEN <<>>
                      ELSE <<[x EXCEPT ![a[1].n] = Empty, ![a[3].n].lam = @ + x[a[1].n].lam]>>
    [] k = "consumep" -> IF ~a[Len(a)].s \/ a[Len(a)].n # a[Len(a) - 2].n \o ".ca" THEN <<>> ELSE <<x>>
    [] k = "prune" -> IF ~a[4].s \/ a[4].n # a[1].n \o ".pa" \/ x[a[5].n].k # "oo" \/ x[a[5].n].own # a[6].n \/ x[a[5].n].mkt # a[1].n THEN <<>>
                      ELSE <<[x EXCEPT ![a[5].n].f = @ + x[a[5].n].n, ![a[5].n].n = 0]>>
Token(x, d, a) ==
  CASE d[1] = "approve" -> IF x[a[1].n].k # "token" \/ x[a[1].n].own # a[3].n THEN <<>> ELSE <<[x EXCEPT ![a[1].n].del = a[2].n, ![a[1].n].damt = d[2]]>>
    [] d[1] = "revoke" -> IF x[a[1].n].k # "token" \/ x[a[1].n].own # a[2].n THEN <<>> ELSE <<[x EXCEPT ![a[1].n].del = "", ![a[1].n].damt = 0]>>
RECURSIVE RunAll(_, _, _, _)
RunAll(x, r, steps, i) ==
  IF i > Len(steps) THEN <<x>>
  ELSE IF ~Granted(r, steps[i]) THEN <<>>
  ELSE LET y == IF steps[i].p = "dex" THEN Exchange(x, r.kind, steps[i].ac) ELSE Token(x, steps[i].d, steps[i].ac) IN
       IF y = <<>> THEN <<>> ELSE RunAll(y[1], r, steps, i + 1)
Outcome(r) ==
  LET f == Fate(w, Env, r) IN
  CASE f.t = "rej" -> <<>>
    [] f.t = "ign" -> <<w>>
    [] OTHER ->
       LET oo == f.steps[Len(f.steps)].ac[1].n
           made == IF r.kind = "init" THEN [w EXCEPT ![oo].o = "dex", ![oo].len = 3228, ![oo].lam = Rent1, ![UserOf(oo)].lam = @ - Rent1] ELSE w
       IN RunAll(made, r, f.steps, 1)

Steps == TLCGet("level") - 1
Calls == {c \in [k : {"init", "new", "cancel", "settle", "close", "prune", "consumep", "cancelc"}, m : Ms, u : Us,
                 v : {"ok", "unsigned", "nodex", "more", "tag", "other", "cross", "twin", "thief", "refx", "refx+", "ref-", "payer", "ia"}] : c.v \in Vars(c.k)}
Txt(c) == c.k \o " " \o c.m \o " " \o c.u \o " " \o c.v
Out(c) == Outcome(Request(c.k, c.m, c.u, c.v))
\* to keep the search small, accepted requests are explored on the first market and, for the second user, only up to opening
Explore(c) == c.m = "M1" \/ (c.k = "init" /\ c.u = "U1")
Init == w = World0 /\ cfg \in Cfgs /\ hist = ""
Next == Steps < MaxSteps /\ \E c \in Calls : Explore(c) /\ \E o \in {Out(c)} : o # <<>> /\ w' = o[1] /\ hist' = hist \o " | " \o Txt(c) /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars
View == <<w, cfg, Steps>>
RECURSIVE Cat(_)
Cat(Q) == IF Q = {} THEN "" ELSE LET x == CHOOSE x \in Q : TRUE IN " | " \o Txt(x) \o Cat(Q \ {x})
Emit == PrintT("SCRIPT " \o (IF Len(cfg) = 1 THEN "0" ELSE "2") \o hist \o (IF Steps < MaxSteps THEN Cat({c \in Calls : Out(c) = <<>>}) ELSE ""))

(* ---- properties ---- *)
SelfOwned == OwnOwner(w)
NoLeftovers == \A t \in Toks : w[t].del = ""
Safe == [][\E c \in Calls : LET r == Request(c.k, c.m, c.u, c.v) IN
            Out(c) = <<w'>> /\ OnlyUser(r, w, w') /\ Charged(r, w, w')]_vars
\* whoever has funds with the exchange can have them back
Whole == \A u \in Us : LET held == w[u \o ".0"].amt + w[OO("M1", u)].n + w[OO("M1", u)].f + w[OO("M2", u)].n + w[OO("M2", u)].f IN held = 9
=============================================================================
