--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* Bounded exhaustive exploration of Dex: one market, a few traders, small   *)
(* numbers, every instruction history up to Steps instructions drawn from    *)
(* Menu. Every invariant of Dex is checked in every reachable state, every    *)
(* rule of Rules on every transition, and from every reachable state the      *)
(* whole market must be drainable. For each new kind of transition TLC prints *)
(* the history leading to it (SCRIPT), which the harness replays on the real   *)
(* program and Trace then judges.                                             *)
(***************************************************************************)
EXTENDS Rules, Json

CONSTANTS Ops, NUsers, Prices, Qtys, Types, Stbs, Lims, Buds, Cids, MaxTsOf, Cap, EqCap, Perm, Steps, Emitting, Wanted

Users == 1..NUsers
U(i) == "U" \o ToString(i)
O(i) == "O" \o ToString(i)
CW(i) == U(i) \o ".c"
PW(i) == U(i) \o ".p"
OoSet == {O(i) : i \in Users}
OoSeq == [i \in Users |-> O(i)]

CL == 3
PL == 50
MCFPOne == 10000
MCFeeDen == 10
MCFeeK == <<1, 1, 1, 1, 1, 1, 1, 1>>
MCSrmSteps == <<10, 20, 30, 40, 50>>

MCS ==
  [st |-> [M1 |-> [rq |-> "rq", eq |-> "eq", bids |-> "bids", asks |-> "asks", cv |-> "cv", pv |-> "pv", vs |-> "vs",
                   cm |-> "CM", pm |-> "PM", cl |-> CL, pl |-> PL, perm |-> Perm > 0,
                   ooa |-> IF Perm > 0 THEN "ooa" ELSE "none", pra |-> IF Perm > 1 THEN "pra" ELSE "none",
                   cra |-> IF Perm > 2 THEN "cra" ELSE "none", eqcap |-> EqCap, cap |-> Cap, stable |-> FALSE]],
   ts |-> [t \in {CW(i) : i \in Users} \cup {PW(i) : i \in Users} \cup {"cv", "pv", "R.p", "F.p"} |->
             [mint |-> IF t \in {CW(i) : i \in Users} \cup {"cv"} THEN "CM" ELSE "PM",
              own |-> IF t \in {"cv", "pv"} THEN "vs" ELSE IF t \in {"R.p", "F.p"} THEN "X"
                      ELSE CHOOSE u \in {U(i) : i \in Users} : t \in {u \o ".c", u \o ".p"}]],
   poor |-> <<>>]

M == "M1"
Empty(f) == [f |-> f, m |-> "", own |-> "", cf |-> 0, ct |-> 0, pf |-> 0, pt |-> 0, rb |-> 0, junk |-> FALSE, sl |-> <<>>]
InitSt ==
  [mk |-> [M1 |-> [fl |-> IF Perm > 0 THEN 515 ELSE 3, cd |-> 0, pd |-> 0, fees |-> 0, rr |-> 0, seq |-> 0, eqh |-> 0, eqn |-> 0, eqs |-> 0, bok |-> "ok"]],
   bk |-> [M1 |-> [b |-> <<>>, a |-> <<>>]],
   ev |-> [M1 |-> <<>>],
   oo |-> [o \in OoSet |-> Empty("none")],
   tok |-> [t \in DOMAIN MCS.ts |-> IF t \in {"cv", "pv", "R.p", "F.p"} THEN 0 ELSE IF MCS.ts[t].mint = "CM" THEN 40 ELSE 4000],
   lam |-> [a \in OoSet \cup {U(i) : i \in Users} |-> IF a \in OoSet THEN 5 ELSE 0]]

VARIABLES st, hist
vars == <<st, hist>>
View == st

-----------------------------------------------------------------------------
\* native budget of a bid, by kind
BudOf(k, px, qty) ==
  LET v == px * qty * PL IN
  CASE k = "exact" -> v + TakerFee(0, v) [] k = "nofee" -> v [] k = "short" -> v + TakerFee(0, v) - 1
    [] k = "rich" -> 2 * v + 7 [] k = "one" -> 1

OrderArgs == {r \in [s : {"bid", "ask"}, px : Prices, qty : Qtys, ty : Types, stb : Stbs, lim : Lims, bud : Buds, cid : Cids, ts : MaxTsOf] :
                r.s = "ask" => r.bud = CHOOSE b \in Buds : TRUE}
OrderOf(r) == [s |-> r.s, px |-> r.px, qty |-> r.qty, pc |-> BudOf(r.bud, r.px, r.qty), ty |-> r.ty, cid |-> r.cid,
               stb |-> r.stb, lim |-> r.lim, ts |-> IF r.ts = "none" THEN MaxTs ELSE IF r.ts = "now" THEN 5 ELSE 4]
With(op, X) == {[op |-> op] @@ x : x \in X}
On(op) == op \in Ops
\* the script steps available; cancels name a slot
StaticMenu ==
  (IF On("new") THEN With("new", UNION {{[u |-> u] @@ a : a \in OrderArgs} : u \in Users}) ELSE {})
  \cup (IF On("take") THEN With("take", UNION {{[u |-> u, min |-> mn] @@ a : a \in {a \in OrderArgs : a.ty = (CHOOSE t \in Types : TRUE) /\ a.stb = (CHOOSE t \in Stbs : TRUE)
                                                    /\ a.cid = (CHOOSE t \in Cids : TRUE) /\ a.ts = (CHOOSE t \in MaxTsOf : TRUE)}} : u \in Users, mn \in {0, 1}}) ELSE {})
  \cup (IF On("replace") THEN With("replace", UNION {{[u |-> u, os |-> <<a>>] : a \in OrderArgs} : u \in Users}) ELSE {})
  \cup (IF On("replace2") THEN With("replace", UNION {{[u |-> u, os |-> <<a, [a EXCEPT !.px = p, !.cid = IF @ = 1 THEN 2 ELSE 1]>>] : a \in {a \in OrderArgs : a.cid # 0}} : u \in Users, p \in Prices}) ELSE {})
  \cup (IF On("cancelc") THEN With("cancelc", {[u |-> u, cid |-> c] : u \in Users, c \in Cids}) ELSE {})
  \cup (IF On("cancelb") THEN With("cancelb", {[u |-> u, cids |-> c] : u \in Users, c \in {<<1>>, <<2, 1>>, <<1, 1>>}}) ELSE {})
  \cup (IF On("settle") THEN With("settle", {[u |-> u, ref |-> b] : u \in Users, b \in BOOLEAN}) ELSE {})
  \cup (IF On("consume") THEN With("consume", {[lim |-> n, us |-> x] : n \in {1, 2, 100}, x \in {<<u>> : u \in Users} \cup {[i \in Users |-> i]}}) ELSE {})
  \cup (IF On("crank") THEN With("consume", {[lim |-> 100, us |-> [i \in Users |-> i]]}) ELSE {})
  \cup (IF On("consumep") THEN With("consumep", {[lim |-> n, us |-> [i \in Users |-> i], au |-> a] : n \in {1, 100}, a \in {"cra", "X"}}) ELSE {})
  \cup (IF On("sweep") THEN With("sweep", {[au |-> "SWP"]}) ELSE {})
  \cup (IF On("disable") THEN With("disable", {[au |-> "DIS"]}) ELSE {})
  \cup (IF On("close") THEN With("close", {[u |-> u] : u \in Users}) ELSE {})
  \cup (IF On("initoo") THEN With("initoo", {[u |-> u, au |-> a] : u \in Users, a \in {"none", "ooa"}}) ELSE {})
  \cup (IF On("prune") THEN With("prune", {[u |-> u, lim |-> n, au |-> "pra"] : u \in Users, n \in {1, 1000}}) ELSE {})
Menu(s) ==
  StaticMenu
  \cup (IF On("cancel") THEN With("cancel", UNION {{[u |-> u, n |-> n] : n \in UsedSlots(s.oo[O(u)])} : u \in Users}) ELSE {})
  \cup (IF On("recreate") THEN With("recreate", {[u |-> u] : u \in {u \in Users : s.oo[O(u)].f = "closed"}}) ELSE {})

Mkt == [market |-> M, rq |-> "rq", eq |-> "eq", bids |-> "bids", asks |-> "asks", cv |-> "cv", pv |-> "pv", vs |-> "vs", spl |-> "spl"]
Own(u) == [oo |-> O(u), owner |-> U(u), cw |-> CW(u), pw |-> PW(u)]
Base(r) == [op |-> r.op, now |-> 5, sig |-> IF "u" \in DOMAIN r THEN <<U(r.u)>> ELSE <<>>]

Instr(s, r) ==
  CASE r.op = "new" -> Base(r) @@ [acc |-> Mkt @@ Own(r.u) @@ [payer |-> IF r.s = "bid" THEN PW(r.u) ELSE CW(r.u)], o |-> OrderOf(r)]
    [] r.op = "take" -> Base(r) @@ [acc |-> Mkt @@ Own(r.u),
                                    o |-> OrderOf(r) @@ [minc |-> r.min * r.qty, minp |-> r.min * r.qty * r.px * PL]]
    [] r.op = "replace" -> Base(r) @@ [acc |-> Mkt @@ Own(r.u) @@ [payer |-> IF r.os[1].s = "bid" THEN PW(r.u) ELSE CW(r.u)],
                                       os |-> [i \in DOMAIN r.os |-> OrderOf(r.os[i])]]
    [] r.op = "cancel" -> LET x == s.oo[O(r.u)]
                              z == CHOOSE z \in Rng(x.sl) : z.n = r.n
                          IN Base(r) @@ [acc |-> Mkt @@ Own(r.u), s |-> z.s, id |-> z.id]
    [] r.op = "cancelc" -> Base(r) @@ [acc |-> Mkt @@ Own(r.u), cid |-> r.cid]
    [] r.op = "cancelb" -> Base(r) @@ [acc |-> Mkt @@ Own(r.u), cids |-> r.cids]
    [] r.op = "settle" -> Base(r) @@ [acc |-> Mkt @@ Own(r.u) @@ (IF r.ref THEN [ref |-> "R.p"] ELSE <<>>)]
    [] r.op = "consume" -> Base(r) @@ [acc |-> Mkt, lim |-> r.lim, oos |-> [i \in DOMAIN r.us |-> O(r.us[i])], sorted |-> TRUE]
    [] r.op = "consumep" -> [Base(r) EXCEPT !.sig = <<r.au>>] @@ [acc |-> Mkt @@ [auth |-> r.au], lim |-> r.lim, oos |-> [i \in DOMAIN r.us |-> O(r.us[i])], sorted |-> TRUE]
    [] r.op = "sweep" -> [Base(r) EXCEPT !.sig = <<r.au>>] @@ [acc |-> Mkt @@ [auth |-> r.au, dst |-> "F.p"]]
    [] r.op = "disable" -> [Base(r) EXCEPT !.sig = <<r.au>>] @@ [acc |-> Mkt @@ [auth |-> r.au]]
    [] r.op = "close" -> Base(r) @@ [acc |-> Mkt @@ Own(r.u) @@ [dest |-> U(r.u)]]
    [] r.op = "initoo" -> [Base(r) EXCEPT !.sig = <<U(r.u), r.au>>] @@ [acc |-> Mkt @@ Own(r.u) @@ (IF r.au = "none" THEN <<>> ELSE [auth |-> r.au])]
    [] r.op = "prune" -> [Base(r) EXCEPT !.sig = <<r.au>>] @@
         [acc |-> Mkt @@ [oo |-> O(r.u), ooowner |-> U(r.u), auth |-> r.au], lim |-> r.lim,
          R |-> LET q == SelectSeq(s.bk[M].b, LAMBDA x : x.own = O(r.u))
                    w == SelectSeq(s.bk[M].a, LAMBDA x : x.own = O(r.u))
                    all == [i \in DOMAIN q |-> [s |-> "bid", id |-> q[i].id]] \o [i \in DOMAIN w |-> [s |-> "ask", id |-> w[i].id]]
                IN SubSeq(all, 1, IF r.lim < Len(all) THEN r.lim ELSE Len(all))]

\* the account was garbage-collected and exists again, blank
Recreate(s, u) == [s EXCEPT !.oo[O(u)] = Empty("none"), !.lam[O(u)] = 5]

Tags5(q) == [i \in DOMAIN q |-> <<q[i].k, q[i].s, q[i].mk, q[i].rel, q[i].paid = 0>>]
Cut(n) == IF n > 2 THEN 2 ELSE n
Signature(s, r, ex) ==
  <<r.op, ex.r, ex.selft,
    IF r.op = "new" THEN <<r.s, r.ty, r.stb, r.lim, r.bud, r.ts>> ELSE IF r.op = "take" THEN <<r.s, r.lim, r.bud, r.min>>
    ELSE IF r.op = "replace" THEN <<Len(r.os), r.os[1].s, r.os[1].ty>> ELSE IF r.op \in {"consume", "consumep"} THEN <<r.lim, Len(r.us)>>
    ELSE IF r.op = "settle" THEN <<r.ref, s.oo[O(r.u)].rb # 0, s.oo[O(r.u)].cf # 0, s.oo[O(r.u)].pf # 0>> ELSE <<>>,
    IF Len(ex.s.ev[M]) > Len(s.ev[M]) THEN Tags5(SubSeq(ex.s.ev[M], Len(s.ev[M]) + 1, Len(ex.s.ev[M])))
    ELSE IF r.op = "consume" THEN Tags5(SubSeq(s.ev[M], 1, Len(s.ev[M]) - Len(ex.s.ev[M]))) ELSE <<>>,
    Cut(Len(s.bk[M].b)), Cut(Len(s.bk[M].a)),
    IF "u" \in DOMAIN r THEN <<s.oo[O(r.u)].f, Cut(Len(s.oo[O(r.u)].sl)), s.oo[O(r.u)].cf # 0, s.oo[O(r.u)].pf # 0>> ELSE <<>>,
    Disabled(s, M)>>
Emit(s, r, ex) ==
  LET sg == Signature(s, r, ex) IN
  IF ~Emitting \/ sg \in TLCGet(1) THEN TRUE
  ELSE TLCSet(1, TLCGet(1) \cup {sg}) /\ PrintT(<<"SCRIPT", ToJson(Append(hist, r))>>)
ASSUME TLCSet(1, {})

-----------------------------------------------------------------------------
\* one step, with its effect written the way a recorded step is
Changed(a, b) == [k \in {k \in DOMAIN b : a[k] # b[k]} |-> b[k]]
Delta(a, b, op) ==
  LET pop == IF op \in {"consume", "consumep"} THEN Len(a.ev[M]) - Len(b.ev[M]) ELSE 0 IN
  [ev |-> [M1 |-> [pop |-> pop, push |-> SubSeq(b.ev[M], Len(a.ev[M]) - pop + 1, Len(b.ev[M]))]],
   oo |-> Changed(a.oo, b.oo), tok |-> Changed(a.tok, b.tok), lam |-> Changed(a.lam, b.lam)]
Single == {"new", "take"}

P01(a, b, e) == TokSum(a, b, e)
P03(a, b, e) == e.op \in Single => PriceTime(a, b, e, M)
P04(a, b, e) == e.op \in Single => WithinLimits(a, b, e, M)
P08(a, b, e) == e.op \in MatchOps => FeesExact(a, b, e, M, 0)
P09(a, b, e) == e.op \in MatchOps => TierRecorded(a, b, e, M, 0)
P10(a, b, e) == QueueDiscipline(a, b, e, M)
P15(a, b, e) == Isolated(a, b, e)
\* C05: what an order may leave behind, stated on its own
P05(a, b, e) ==
  e.op = "new" =>
    LET u == e.acc.oo
        fresh == {x \in Rng(b.bk[M].b) \cup Rng(b.bk[M].a) : x.id \notin {y.id : y \in Rng(a.bk[M].b) \cup Rng(a.bk[M].a)}}
        fills == Makers(Pushed(e, M))
    IN /\ Cardinality(fresh) =< 1
       /\ e.o.ty = "ioc" => fresh = {}
       /\ e.o.ty = "post" => fills = <<>>
       /\ \A x \in fresh : x.px = e.o.px /\ x.own = u /\ x.qty =< e.o.qty
       \* never more taken from the wallet than the order locks, never while free funds remain
       /\ LET d == a.tok[e.acc.payer] - b.tok[e.acc.payer]
              lock == IF e.o.s = "bid" THEN e.o.pc ELSE e.o.qty * CL
              free == IF a.oo[u].f # "live" THEN 0 ELSE IF e.o.s = "bid" THEN a.oo[u].pf ELSE a.oo[u].cf
          IN d = IF free >= lock THEN 0 ELSE lock - free
\* C07: an order never trades against its own account
P07(a, b, e) == e.op = "new" => \A v \in Rng(Makers(Pushed(e, M))) : v.own # e.acc.oo
\* C12/C13/C17/C19/C23: what these instructions may change
P12(a, b, e) ==
  e.op \in {"cancel", "cancelc", "cancelb"} =>
    /\ a.tok = b.tok /\ \A x \in Rng(b.bk[M].b) : x \in Rng(a.bk[M].b)
    /\ \A x \in Rng(b.bk[M].a) : x \in Rng(a.bk[M].a)
    /\ \A x \in (Rng(a.bk[M].b) \cup Rng(a.bk[M].a)) \ (Rng(b.bk[M].b) \cup Rng(b.bk[M].a)) : x.own = e.acc.oo
    /\ e.op = "cancel" => Len(a.bk[M].b) + Len(a.bk[M].a) = Len(b.bk[M].b) + Len(b.bk[M].a) + 1
P13(a, b, e) ==
  e.op = "settle" =>
    LET u == a.oo[e.acc.oo]
        v == b.oo[e.acc.oo]
    IN /\ v.cf = 0 /\ v.pf = 0 /\ v.rb = 0 /\ v.sl = u.sl
       /\ b.tok[e.acc.cw] - a.tok[e.acc.cw] = u.cf /\ b.tok[e.acc.pw] - a.tok[e.acc.pw] = u.pf
       /\ b.tok["R.p"] - a.tok["R.p"] = IF Has(e, "ref") THEN u.rb ELSE 0
       /\ a.bk = b.bk /\ a.ev = b.ev
P17(a, b, e) == Disabled(a, M) => e.op \in {"cancel", "cancelc", "cancelb", "settle", "consume", "consumep", "close"} /\ Disabled(b, M)
P23(a, b, e) == IF e.op = "sweep" THEN b.mk[M].fees = 0 /\ b.tok["F.p"] - a.tok["F.p"] = a.mk[M].fees /\ b.oo = a.oo
                ELSE b.tok["F.p"] = a.tok["F.p"]
P25(a, b, e) == e.op = "prune" => \A x \in Rng(a.bk[M].b) \cup Rng(a.bk[M].a) : x.own # e.acc.oo => x \in Rng(b.bk[M].b) \cup Rng(b.bk[M].a)
P26(a, b, e) == e.op = "new" => ~(e.o.ts # MaxTs /\ e.o.ts < e.now)
\* C20: an order id or slot is never handed out twice while in use; sequence numbers only grow
P20(a, b, e) == a.mk[M].seq =< b.mk[M].seq /\ (e.op \in Single => b.mk[M].seq = a.mk[M].seq + 1)


Must(p, cond, r) == IF p \notin Wanted \/ cond THEN TRUE ELSE PrintT(<<"BAD", p, Len(hist), r>>)
StepRules(a, b, e, r) ==
  /\ Must("C01", P01(a, b, e), r) /\ Must("C03", P03(a, b, e), r) /\ Must("C04", P04(a, b, e), r) /\ Must("C05", P05(a, b, e), r)
  /\ Must("C07", P07(a, b, e), r) /\ Must("C08", P08(a, b, e), r) /\ Must("C09", P09(a, b, e), r) /\ Must("C10", P10(a, b, e), r)
  /\ Must("C12", P12(a, b, e), r) /\ Must("C13", P13(a, b, e), r) /\ Must("C15", P15(a, b, e), r) /\ Must("C17", P17(a, b, e), r)
  /\ Must("C20", P20(a, b, e), r) /\ Must("C23", P23(a, b, e), r) /\ Must("C25", P25(a, b, e), r) /\ Must("C26", P26(a, b, e), r)

Init == st = InitSt /\ hist = <<>>
Next ==
  /\ Len(hist) < Steps
  /\ \E r \in Menu(st) :
       /\ (hist = <<>> /\ "u" \in DOMAIN r) => r.u = 1      \* traders are interchangeable
       /\ \E e \in {IF r.op = "recreate" THEN <<>> ELSE Instr(st, r)} :          \* singleton: evaluated once
          \E ex \in {IF r.op = "recreate" THEN Accept(Recreate(st, r.u)) ELSE Apply(st, e)} :
          /\ Emit(st, r, ex)
          /\ IF r.op = "recreate" \/ ex.r # {} THEN TRUE ELSE \E f \in {e @@ Delta(st, ex.s, r.op)} : StepRules(st, ex.s, f, r)
          /\ st' = ex.s
          /\ hist' = Append(hist, r)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Inv01 == CoinExcess(st, M) = 0 /\ PcExcess(st, M) = 0 /\ DepositsMatch(st, M)
Inv02 == \A o \in BoundOO(st, M) : LockedMatch(st, o)
Inv06 == BookSound(st, M)
Inv10 == RingSound(st, M)
Inv19 == \A o \in OoSet : SlotsSound(st, o)
Inv20 == IdsSound(st, M)
InvRebates == RebatesBacked(st, M)
InvSlots == \A o \in BoundOO(st, M) : NoLostSlot(st, o)

\* C24: from every reachable state everybody can leave with everything
CrankAll(s) ==
  LET e == [op |-> IF Perm > 2 THEN "consumep" ELSE "consume", now |-> 5, sig |-> <<"cra">>, acc |-> Mkt @@ [auth |-> "cra"], lim |-> 100000, oos |-> OoSeq, sorted |-> TRUE]
  IN Consume(s, e, Len(s.ev[M]))
RECURSIVE CancelEach(_, _)
CancelEach(s, todo) ==
  IF todo = {} THEN Accept(s) ELSE
  LET z == CHOOSE z \in todo : TRUE
      e == [op |-> "cancel", now |-> 5, sig |-> <<U(z.u)>>, acc |-> Mkt @@ Own(z.u), s |-> z.s, id |-> z.id]
      w == Apply(s, e)
      c == CrankAll(w.s)
  IN IF w.r # {} THEN w ELSE IF c.r # {} THEN c ELSE CancelEach(c.s, todo \ {z})
RestingOf(s) ==
  {[u |-> u, s |-> "bid", id |-> s.bk[M].b[i].id] : u \in Users, i \in DOMAIN s.bk[M].b} \cup
  {[u |-> u, s |-> "ask", id |-> s.bk[M].a[i].id] : u \in Users, i \in DOMAIN s.bk[M].a}
OwnResting(s) == {z \in RestingOf(s) : \E x \in Rng(s.bk[M].b) \cup Rng(s.bk[M].a) : x.id = z.id /\ x.own = O(z.u)}
RECURSIVE EachUser(_, _, _)
EachUser(s, u, op) ==
  IF u > NUsers THEN Accept(s)
  ELSE IF s.oo[O(u)].f # "live" THEN EachUser(s, u + 1, op)
  ELSE LET w == Apply(s, Instr(s, IF op = "settle" THEN [op |-> op, u |-> u, ref |-> FALSE] ELSE [op |-> op, u |-> u]))
       IN IF w.r # {} THEN w ELSE EachUser(w.s, u + 1, op)
DrainOf(s) ==
  LET a == CrankAll(s) IN IF a.r # {} THEN a ELSE
  LET b == CancelEach(a.s, OwnResting(a.s)) IN IF b.r # {} THEN b ELSE
  LET c == EachUser(b.s, 1, "settle") IN IF c.r # {} THEN c ELSE
  LET d == IF Disabled(s, M) THEN Accept(c.s) ELSE Apply(c.s, Instr(c.s, [op |-> "sweep", au |-> "SWP"])) IN IF d.r # {} THEN d ELSE
  EachUser(d.s, 1, "close")
Inv24 ==
  LET d == DrainOf(st) IN
  /\ d.r = {}
  /\ d.s.bk[M] = [b |-> <<>>, a |-> <<>>] /\ d.s.ev[M] = <<>>
  /\ \A o \in OoSet : d.s.oo[o].f # "live"
  /\ d.s.mk[M].cd = 0 /\ d.s.mk[M].pd = 0 /\ d.s.mk[M].rr = 0
  /\ d.s.tok["cv"] = 0 /\ (~Disabled(st, M) => d.s.tok["pv"] = 0)
=============================================================================
