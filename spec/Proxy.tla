------------------------------- MODULE Proxy -------------------------------
(***************************************************************************)
(* The permissioned-market proxy: which requests it refuses, which it       *)
(* answers itself, and exactly what it lets reach the exchange and the      *)
(* token program on the user's behalf.                                     *)
(*                                                                         *)
(* A request r has cfg (the middlewares, in order), ac (the accounts it     *)
(* names: [n: name, s: signed, w: writable]), data (bytes), body (how many  *)
(* of them, at the end, are the exchange's instruction), kind (what that    *)
(* instruction is), canon (its encodings: as sent, crank limit capped at 7, *)
(* match limit capped at 9). w maps account names to what they hold.        *)
(***************************************************************************)
EXTENDS Num, FiniteSets
CONSTANTS MaxU

Kinds == {"init", "new", "cancel", "cancelc", "settle", "close", "consume", "consumep", "prune"}
Least == [init |-> 4, new |-> 12, cancel |-> 6, cancelc |-> 6, settle |-> 10, close |-> 4, consume |-> 4, consumep |-> 3, prune |-> 7]
Mkts == {"M1", "M2", "M3"}
Users == {"U1", "U2", "U3"}
\* derived addresses
OO(m, u) == IF m \in Mkts /\ u \in Users THEN "oo:" \o m \o ":" \o u ELSE "?"
UserOf(x) == IF \E m \in Mkts, u \in Users : x = OO(m, u) THEN CHOOSE u \in Users : \E m \in Mkts : x = OO(m, u) ELSE "?"
MktOf(x) == IF \E m \in Mkts, u \in Users : x = OO(m, u) THEN CHOOSE m \in Mkts : \E u \in Users : x = OO(m, u) ELSE "?"
Auth(m, what) == IF m \in Mkts THEN m \o what ELSE "?"

(* ---- privileges belong to accounts, however often a request names them ---- *)
Names(ac) == {ac[i].n : i \in 1..Len(ac)}
Signed(ac, n) == \E i \in 1..Len(ac) : ac[i].n = n /\ ac[i].s
Writable(ac, n) == \E i \in 1..Len(ac) : ac[i].n = n /\ ac[i].w
Merge(ac) == [i \in 1..Len(ac) |-> [n |-> ac[i].n, s |-> Signed(ac, ac[i].n), w |-> Writable(ac, ac[i].n)]]

(* ---- the request while it passes through the middlewares ---- *)
\* st: "ok" or "rej"; seeds: addresses the proxy signs for; pre, post: calls around the relayed one; lim: which encoding; cb: callbacks
Fresh(ac) == [st |-> "ok", ac |-> ac, seeds |-> {}, pre |-> <<>>, post |-> <<>>, lim |-> 1, cb |-> <<>>]
Rej(c) == [c EXCEPT !.st = "rej"]
M(n, s, w) == [n |-> n, s |-> s, w |-> w]
Own(a) == [a EXCEPT !.s = TRUE]
TokCall(d, ac, infos, seeds) == [p |-> "spl", d |-> d, ac |-> ac, infos |-> infos, seeds |-> seeds]

\* env: bump (number of each derived address), ia: the init authority's name for a market and a bump, rent: of an open-orders account
InitOpen(w, env, c, b, bi) ==
  LET a == c.ac IN
  IF Len(a) < 7 THEN Rej(c) ELSE
  LET oo == a[3].n u == a[4].n m == a[5].n IN
  LET fine == /\ a[1].n = "dex" /\ a[2].n = "sys" /\ a[6].n = "rent"
              /\ oo = OO(m, u) /\ b = env.bumps[oo]
              /\ a[4].s /\ a[3].w
              /\ \E x \in {Auth(m, ".ia"), Auth(m, ".ia~")} : x \in DOMAIN env.bumps /\ a[7].n = x /\ bi = env.bumps[x]
              /\ w[oo].o = "sys" /\ w[oo].len = 0
              /\ (w[oo].lam \prec env.rent) => (a[4].w /\ w[u].o = "sys" /\ w[u].len = 0 /\ (env.rent \ominus w[oo].lam) \preceq w[u].lam)
  IN IF ~fine THEN Rej(c)
     ELSE [c EXCEPT !.seeds = @ \cup {oo, a[7].n},
                    !.ac = [i \in 1..(Len(a) - 2) |-> IF i = 2 THEN Own(a[3]) ELSE IF i = 5 THEN Own(a[7]) ELSE a[i + 2]]]
\* the open-orders account at index io, its user at iu, the market at im: the user must have signed; the account then signs in his place
ActFor(c, im, io, iu) ==
  IF Len(c.ac) < im \/ Len(c.ac) < io \/ Len(c.ac) < iu THEN Rej(c) ELSE
  IF ~c.ac[iu].s THEN Rej(c)
  ELSE [c EXCEPT !.seeds = @ \cup {OO(c.ac[im].n, c.ac[iu].n)}, !.ac[iu] = Own(c.ac[io])]
\* <<amount>> the order may cost at most, or <<>>
MostNew(w, r, m) ==
  IF ~r.ask THEN <<r.pc>>
  ELSE IF w[m].len < 357 THEN <<>>
  ELSE LET a == r.qty \otimes w[m].lot IN IF MaxU \prec a THEN <<>> ELSE <<a>>
NewOrder(w, r, c) ==
  IF Len(c.ac) < 8 THEN Rej(c) ELSE
  IF ~c.ac[8].s THEN Rej(c) ELSE
  LET most == MostNew(w, r, c.ac[1].n) pay == c.ac[7].n oo == c.ac[2].n u == c.ac[8].n IN
  IF most = <<>> THEN Rej(c)
  ELSE [ActFor(c, 1, 2, 8) EXCEPT
         !.pre = Append(@, TokCall(<<"approve", most[1]>>, <<M(pay, FALSE, TRUE), M(oo, FALSE, FALSE), M(u, TRUE, FALSE)>>, {pay, oo, u}, {})),
         !.post = Append(@, TokCall(<<"revoke">>, <<M(pay, FALSE, TRUE), M(u, TRUE, FALSE)>>, {pay, u}, {}))]
Pda(w, env, r, c, b, bi) ==
  CASE r.kind = "init" -> InitOpen(w, env, c, b, bi)
    [] r.kind = "new" -> NewOrder(w, r, c)
    [] r.kind \in {"cancel", "cancelc"} -> ActFor(c, 1, 4, 5)
    [] r.kind = "settle" -> ActFor(c, 1, 2, 3)
    [] r.kind = "close" -> ActFor(c, 4, 1, 2)
    [] r.kind = "prune" -> IF Len(c.ac) < 6 THEN Rej(c) ELSE [c EXCEPT !.ac[6] = c.ac[5]]
    [] OTHER -> c
Referral(w, r, c) ==
  IF r.kind # "settle" THEN c
  ELSE IF Len(c.ac) < 10 \/ ~w[c.ac[10].n].r THEN Rej(c) ELSE c
\* the harness's own: a pass that is checked and dropped; authorities; calls around the relay
Pass(c) == IF c.ac = <<>> \/ c.ac[1].n # "TAG" THEN Rej(c) ELSE [c EXCEPT !.ac = Tail(@)]
Authority(r, c) ==
  LET n == Len(c.ac) IN
  CASE r.kind = "consume" -> [c EXCEPT !.lim = 2]
    [] r.kind = "consumep" -> IF n < 3 THEN Rej(c) ELSE [c EXCEPT !.lim = 2, !.seeds = @ \cup {Auth(c.ac[n - 2].n, ".ca")}, !.ac[n].s = TRUE]
    [] r.kind = "prune" -> IF n < 4 THEN Rej(c) ELSE [c EXCEPT !.seeds = @ \cup {Auth(c.ac[1].n, ".pa")}, !.ac[4].s = TRUE]
    [] OTHER -> c
Around(r, c) ==
  IF r.kind \notin {"new", "cancel", "settle"} THEN c
  ELSE LET n == Len(c.ac) IN
  IF n < 4 THEN Rej(c)
  ELSE LET in == {c.ac[i].n : i \in (n - 3)..n}
           t(a, b, k) == TokCall(<<"transfer", k>>, <<M(a, FALSE, TRUE), M(b, FALSE, TRUE), M("pvs", TRUE, FALSE)>>, in, {"pvs"})
           arg == CASE r.kind = "cancel" -> 1 [] r.kind = "settle" -> 2 [] OTHER -> IF r.cid = 13 THEN 9 ELSE 3
       IN [c EXCEPT !.ac = SubSeq(@, 1, n - 4), !.pre = Append(@, t("PV1", "PV2", Lit(3))), !.post = Append(@, t("PV2", "PV1", Lit(2))),
                    !.lim = IF r.kind = "new" THEN 3 ELSE @, !.cb = Append(@, <<c.ac[n - 3].n, arg>>)]
Through(w, env, r, mw, c, b, bi) ==
  IF c.st = "rej" THEN c
  ELSE CASE mw = "pda" -> Pda(w, env, r, c, b, bi)
         [] mw = "ref" -> Referral(w, r, c)
         [] mw = "tag" -> Pass(c)
         [] mw = "auth" -> Authority(r, c)
         [] mw = "extra" -> Around(r, c)
         [] OTHER -> c
RECURSIVE Fold(_, _, _, _, _, _, _)
Fold(w, env, r, i, c, b, bi) == IF i > Len(r.cfg) THEN c ELSE Fold(w, env, r, i + 1, Through(w, env, r, r.cfg[i], c, b, bi), b, bi)

Has(r, mw) == \E i \in 1..Len(r.cfg) : r.cfg[i] = mw
(***************************************************************************)
(* What becomes of a request: [t |-> "rej"], refused before anything is     *)
(* called; [t |-> "ign"], answered without calling anything; or             *)
(* [t |-> "relay"] with the calls to make, in order.                       *)
(***************************************************************************)
Fate(w, env, r0) ==
  IF r0.ac = <<>> \/ r0.ac[1].n # "dex" THEN [t |-> "rej"] ELSE
  LET n == Len(r0.data)
      cut == IF ~Has(r0, "pda") THEN 0 ELSE IF n = 0 THEN 4 ELSE IF r0.data[1] = 0 THEN 3 ELSE 1
  IN IF cut > n THEN [t |-> "rej"] ELSE
  LET b == IF cut = 3 THEN r0.data[2] ELSE 0
      bi == IF cut = 3 THEN r0.data[3] ELSE 0
      r == [r0 EXCEPT !.kind = IF n - cut = r0.body THEN @ ELSE "junk"]
      c0 == Fresh(Tail(Merge(r.ac)))
  IN IF r.kind \notin Kinds
     THEN [t |-> IF Has(r, "tag") /\ Pass(c0).st = "rej" THEN "rej" ELSE "ign"]
     ELSE IF Len(c0.ac) < Least[r.kind] THEN [t |-> "rej"] ELSE
     LET c == Fold(w, env, r, 1, c0, b, bi) IN
     IF c.st = "rej" THEN [t |-> "rej"]
     ELSE [t |-> "relay", kind |-> r.kind, cb |-> c.cb, lim |-> c.lim,
           steps |-> c.pre \o <<[p |-> "dex", d |-> <<r.canon[c.lim]>>, ac |-> c.ac, infos |-> Names(c.ac), seeds |-> c.seeds]>> \o c.post]
\* the runtime carries out a call only with privileges the request, or an address the proxy derives, really has
Granted(r, s) == /\ s.p \in Names(r.ac)
                 /\ \A i \in 1..Len(s.ac) : /\ s.ac[i].n \in s.infos
                                            /\ s.ac[i].s => Signed(r.ac, s.ac[i].n) \/ s.ac[i].n \in s.seeds
                                            /\ s.ac[i].w => Writable(r.ac, s.ac[i].n)

(* ---- what users rely on ---- *)
\* an open-orders account of the proxy moves only on its user's signature, or by cranking and pruning
Touched(x, v) == {n \in DOMAIN x : UserOf(n) # "?" /\ x[n] # v[n]}
OnlyUser(r, x, v) == \A n \in Touched(x, v) : Signed(r.ac, UserOf(n)) \/ r.kind \in {"consume", "consumep", "prune"}
\* an account opened by the proxy is its own owner, at the address derived for that market and user, and kept by the exchange
OwnOwner(x) == \A n \in DOMAIN x : UserOf(n) # "?" /\ x[n].o = "dex" => x[n].k = "oo" /\ x[n].own = n /\ x[n].mkt = MktOf(n)
\* no authority over a wallet outlives the request that needed it
NoDelegate(x, v) == \A n \in DOMAIN x : x[n].k = "token" /\ v[n].k = "token" /\ UserOf(v[n].del) # "?" => x[n].del = v[n].del
\* a wallet is charged only in an order signed by its owner
Charged(r, x, v) == \A n \in DOMAIN x : x[n].k = "token" /\ x[n].own \in Users /\ v[n].amt \prec x[n].amt => r.kind = "new" /\ Signed(r.ac, x[n].own)
=============================================================================
