-------------------------------- MODULE Dex --------------------------------
(***************************************************************************)
(* The exchange as a state machine: state, every instruction's effect and   *)
(* every reason for which an instruction has to be refused.                 *)
(*                                                                          *)
(* State  st = [mk, bk, ev, oo, tok, lam]                                   *)
(*   mk[m]  : market record  (flags, deposits, fees, rebates, sequence,     *)
(*            event-queue ring position)                                    *)
(*   bk[m]  : [b, a] resting orders, best first                             *)
(*   ev[m]  : event queue, oldest first                                     *)
(*   oo[o]  : trading (open-orders) accounts                                *)
(*   tok[t] : token balances          lam[a] : lamports                     *)
(* Static configuration S: per-market accounts, lot sizes, capacities,      *)
(* authorities (S.st), token accounts' mint and owner (S.ts), accounts that *)
(* are not rent exempt (S.poor).                                            *)
(*                                                                          *)
(* An instruction e carries its accounts by role (e.acc), the set of        *)
(* accounts that signed (e.sig, a sequence), the clock (e.now) and its      *)
(* arguments. Apply(st, e) = [r, s, selft]: r is the set of reasons to      *)
(* refuse it (empty: it succeeds), s the resulting state.                   *)
(***************************************************************************)
EXTENDS Fees, FiniteSets, TLC, SequencesExt, FiniteSetsExt
CONSTANTS S, NSlots

Rng(q) == {q[i] : i \in DOMAIN q}
If(c, r) == IF c THEN {r} ELSE {}

FDisabled == 128
Bit(fl, b) == (fl \div b) % 2 = 1
Disabled(st, m) == Bit(st.mk[m].fl, FDisabled)

-----------------------------------------------------------------------------
\* Orders, books, events

OrderId(side, px, seq) == (px \otimes IdBase) \oplus (IF side = "bid" THEN (IdBase \ominus One) \ominus seq ELSE seq)

\* x ranks strictly before y on that side
Before(side, x, y) == IF side = "bid" THEN y.id \prec x.id ELSE x.id \prec y.id

\* position of a new order in a best-first sequence
InsertPos(side, q, x) == Cardinality({i \in DOMAIN q : Before(side, q[i], x)})
InsertOrd(side, q, x) == LET k == InsertPos(side, q, x) IN SubSeq(q, 1, k) \o <<x>> \o SubSeq(q, k + 1, Len(q))
DropAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
IndexOf(q, id) == IF \E i \in DOMAIN q : q[i].id = id THEN CHOOSE i \in DOMAIN q : q[i].id = id ELSE 0

FillEv(side, maker, x, paid, rcv, fee) ==
  [k |-> "fill", s |-> side, mk |-> maker, rel |-> FALSE, sl |-> x.sl, t |-> x.t,
   rcv |-> rcv, paid |-> paid, fee |-> fee, id |-> x.id, own |-> x.own, cid |-> x.cid]
\* of what is still locked an Out event only says whether it is nothing (the order is completely out)
OutEv(side, release, x, unlocked, still) ==
  [k |-> "out", s |-> side, mk |-> FALSE, rel |-> release, sl |-> x.sl, t |-> 0,
   rcv |-> unlocked, paid |-> (IF still = Zero THEN Zero ELSE One), fee |-> Zero,
   id |-> x.id, own |-> x.own, cid |-> x.cid]

\* native value locked by a resting order
LockedBy(m, side, x) == IF side = "bid" THEN (x.qty \otimes x.px) \otimes S.st[m].pl ELSE x.qty \otimes S.st[m].cl

-----------------------------------------------------------------------------
\* Matching. o: the incoming order [px, own, sl, id, t, cid, ty, stb, take]; x: what is left of it and what it
\* has done so far. One pass handles at most one resting order; lim counts passes.

MatchInit(opp, qty, pc, lim) ==
  [opp |-> opp, qty |-> qty, pc |-> pc, lim |-> lim, ev |-> <<>>, post |-> Zero,
   coinUnl |-> Zero, pcUnl |-> Zero, coinCr |-> Zero, pcCr |-> Zero, coinDb |-> Zero, pcDb |-> Zero,
   fee |-> Zero, ref |-> Zero, abort |-> FALSE, selft |-> FALSE, fills |-> 0]

\* end of matching for a bid: keep what can rest, return everything else
FinishBid(m, x, o, crossed) ==
  LET pl   == S.st[m].pl
      post == IF o.ty # "ioc" /\ ~crossed THEN NMin(x.qty, (x.pc \oslash pl) \oslash o.px) ELSE Zero
      keep == (post \otimes o.px) \otimes pl
      unl  == x.pc \ominus keep
  IN  IF o.take THEN [x EXCEPT !.qty = Zero]
      ELSE [x EXCEPT !.post = post, !.pcUnl = @ \oplus unl, !.ev = Append(@, OutEv("bid", FALSE, o, unl, keep))]

FinishAsk(m, x, o, crossed) ==
  LET cl == S.st[m].cl
  IN  IF o.ty # "ioc" /\ ~crossed /\ x.qty # Zero THEN [x EXCEPT !.post = x.qty]
      ELSE IF o.take THEN x
      ELSE [x EXCEPT !.coinUnl = @ \oplus x.qty,
                     !.ev = Append(@, OutEv("ask", FALSE, o, x.qty \otimes cl, Zero))]

\* the best opposite order after giving up `used` of its quantity
Shrink(q, used) ==
  LET h == Head(q) IN IF h.qty = used THEN Tail(q) ELSE <<[h EXCEPT !.qty = @ \ominus used]>> \o Tail(q)

RECURSIVE MatchBid(_, _, _)
MatchBid(m, x, o) ==
  LET pl == S.st[m].pl
      cl == S.st[m].cl
      none == x.opp = <<>>
      crossed == ~none /\ Head(x.opp).px \preceq o.px
  IN
  IF none \/ ~crossed \/ o.ty = "post" \/ x.lim = 0 THEN FinishBid(m, x, o, crossed) ELSE
  LET best == Head(x.opp)
      maxpc == Spendable(o.t, x.pc) \oslash pl
      tq == NMin(NMin(best.qty, x.qty), maxpc \oslash best.px)
  IN
  IF tq = Zero THEN FinishBid(m, x, o, TRUE) ELSE
  IF best.own = o.own THEN
    IF o.stb = "abort" THEN [x EXCEPT !.abort = TRUE, !.selft = TRUE] ELSE
    LET prov == IF o.stb = "dec" THEN tq ELSE best.qty
        take == IF o.stb = "dec" THEN tq ELSE Zero
        unl1 == (take \otimes best.px) \otimes pl
        still1 == x.pc \ominus unl1
        qty1 == x.qty \ominus take
        go == qty1 # Zero /\ still1 # Zero
        unl == IF go THEN unl1 ELSE x.pc
        still == IF go THEN still1 ELSE Zero
        x1 == [x EXCEPT !.selft = TRUE,
                 !.opp = Shrink(@, prov),
                 !.ev = @ \o <<OutEv("ask", TRUE, best, prov \otimes cl, best.qty \ominus prov),
                               OutEv("bid", FALSE, o, unl, still)>>,
                 !.pcUnl = @ \oplus unl, !.qty = qty1, !.pc = still, !.lim = @ - 1]
    IN  IF go THEN MatchBid(m, x1, o) ELSE x1
  ELSE
    LET val == (tq \otimes best.px) \otimes pl
        coin == tq \otimes cl
        fee == TakerFee(o.t, val)
        paid == val \oplus fee
        x1 == [x EXCEPT !.fills = @ + 1,
                 !.opp = Shrink(@, tq),
                 !.ev = @ \o <<FillEv("ask", TRUE, best, coin, val, Zero)>>
                          \o (IF best.qty = tq THEN <<OutEv("ask", TRUE, best, Zero, Zero)>> ELSE <<>>)
                          \o (IF o.take THEN <<>> ELSE <<FillEv("bid", FALSE, o, paid, coin, fee)>>),
                 !.coinCr = @ \oplus tq, !.pcDb = @ \oplus paid,
                 !.fee = @ \oplus fee, !.ref = @ \oplus RefShare(fee),
                 !.qty = @ \ominus tq, !.pc = @ \ominus paid, !.lim = @ - 1]
    IN  IF x1.qty # Zero /\ x1.pc # Zero THEN MatchBid(m, x1, o) ELSE FinishBid(m, x1, o, TRUE)

RECURSIVE MatchAsk(_, _, _)
MatchAsk(m, x, o) ==
  LET pl == S.st[m].pl
      cl == S.st[m].cl
      none == x.opp = <<>>
      crossed == ~none /\ o.px \preceq Head(x.opp).px
  IN
  IF none \/ ~crossed \/ o.ty = "post" \/ x.lim = 0 THEN FinishAsk(m, x, o, crossed) ELSE
  LET best == Head(x.opp)
      tq == NMin(best.qty, x.qty)
  IN
  IF best.own = o.own THEN
    IF o.stb = "abort" THEN [x EXCEPT !.abort = TRUE, !.selft = TRUE] ELSE
    LET prov == IF o.stb = "dec" THEN tq ELSE best.qty
        take == IF o.stb = "dec" THEN tq ELSE Zero
        qty1 == x.qty \ominus take
        x1 == [x EXCEPT !.selft = TRUE,
                 !.opp = Shrink(@, prov),
                 !.ev = @ \o <<OutEv("bid", TRUE, best, (prov \otimes best.px) \otimes pl, best.qty \ominus prov),
                               OutEv("ask", FALSE, o, take \otimes cl, qty1)>>,
                 !.coinUnl = @ \oplus take, !.qty = qty1, !.lim = @ - 1]
    IN  IF qty1 # Zero THEN MatchAsk(m, x1, o) ELSE x1
  ELSE
    LET val == (tq \otimes best.px) \otimes pl
        coin == tq \otimes cl
        fee == TakerFee(o.t, val)
        net == val \ominus fee
        x1 == [x EXCEPT !.fills = @ + 1,
                 !.opp = Shrink(@, tq),
                 !.ev = @ \o <<FillEv("bid", TRUE, best, val, coin, Zero)>>
                          \o (IF best.qty = tq THEN <<OutEv("bid", TRUE, best, Zero, Zero)>> ELSE <<>>)
                          \o (IF o.take THEN <<>> ELSE <<FillEv("ask", FALSE, o, coin, net, fee)>>),
                 !.pcCr = @ \oplus net, !.coinDb = @ \oplus tq,
                 !.fee = @ \oplus fee, !.ref = @ \oplus RefShare(fee),
                 !.qty = @ \ominus tq, !.lim = @ - 1]
    IN  IF x1.qty # Zero THEN MatchAsk(m, x1, o) ELSE FinishAsk(m, x1, o, TRUE)

\* the incoming order's whole effect on books and events
Match(st, m, side, o, qty, pc, lim) ==
  LET bk == st.bk[m]
      x  == IF side = "bid" THEN MatchBid(m, MatchInit(bk.a, qty, pc, lim), o)
                            ELSE MatchAsk(m, MatchInit(bk.b, qty, Zero, lim), o)
      mine == IF side = "bid" THEN bk.b ELSE bk.a
      full == Len(mine) >= S.st[m].cap
      evict == x.post # Zero /\ full
      worst == mine[Len(mine)]
      leaf == [id |-> o.id, px |-> o.px, qty |-> x.post, own |-> o.own, sl |-> o.sl, t |-> o.t, cid |-> o.cid]
      base == IF evict THEN SubSeq(mine, 1, Len(mine) - 1) ELSE mine
      mine1 == IF x.post # Zero THEN InsertOrd(side, base, leaf) ELSE mine
      ev == IF evict THEN Append(x.ev, OutEv(side, TRUE, worst, LockedBy(m, side, worst), Zero)) ELSE x.ev
  IN  [x |-> x, ev |-> ev, evict |-> evict,
       bk |-> IF side = "bid" THEN [b |-> mine1, a |-> x.opp] ELSE [b |-> x.opp, a |-> mine1]]

-----------------------------------------------------------------------------
\* Event queue (ring of capacity eqcap)

Push(st, m, evs) ==
  [st EXCEPT !.ev[m] = @ \o evs, !.mk[m].eqn = @ + Len(evs), !.mk[m].eqs = @ \oplus Lit(Len(evs))]
Fits(st, m, n) == Len(st.ev[m]) + n =< S.st[m].eqcap
PopN(st, m, n) ==
  [st EXCEPT !.ev[m] = SubSeq(@, n + 1, Len(@)), !.mk[m].eqn = @ - n, !.mk[m].eqh = (@ + n) % S.st[m].eqcap]

-----------------------------------------------------------------------------
\* Trading accounts

FreshOO(m, own, rb) ==
  [f |-> "live", m |-> m, own |-> own, cf |-> Zero, ct |-> Zero, pf |-> Zero, pt |-> Zero, rb |-> rb, junk |-> FALSE, sl |-> <<>>]
UsedSlots(x) == {x.sl[i].n : i \in DOMAIN x.sl}
FirstFree(x) == LET u == UsedSlots(x) IN CHOOSE n \in 0..(NSlots - 1) : n \notin u /\ \A j \in 0..(n - 1) : j \in u
AddSlot(x, r) == LET k == Cardinality({i \in DOMAIN x.sl : x.sl[i].n < r.n})
                 IN [x EXCEPT !.sl = SubSeq(@, 1, k) \o <<r>> \o SubSeq(@, k + 1, Len(@))]
DropSlot(x, n) == [x EXCEPT !.sl = SelectSeq(@, LAMBDA r : r.n # n)]

\* why account oo cannot serve `owner` on market m. init: the instruction may open it; auth: authority presented
\* with a signature ("none" if none)
OoReasons(st, m, oo, owner, init, auth) ==
  IF oo \notin DOMAIN st.oo THEN {"sub"} ELSE
  LET x == st.oo[oo] IN
  CASE x.f = "live" -> If(x.m # m, "sub") \cup If(x.own # owner, "owner")
    [] x.f = "none" /\ init -> If(auth # S.st[m].ooa, "perm") \cup If(oo \in Rng(S.poor), "rent")
    [] OTHER -> {"oostate"}

-----------------------------------------------------------------------------
\* Tokens

Move(st, from, to, amt) ==
  LET s1 == [st EXCEPT !.tok[from] = @ \ominus amt] IN [s1 EXCEPT !.tok[to] = @ \oplus amt]

IsMint(t, mint) == t \in DOMAIN S.ts /\ S.ts[t].mint = mint

-----------------------------------------------------------------------------
\* Account checks shared by instructions. Each yields a set of reasons.

Sig(e, role) == If(e.acc[role] \notin Rng(e.sig), "sig")
Is(e, role, name) == If(e.acc[role] # name, "sub")
Has(e, role) == role \in DOMAIN e.acc
MktSub(e) == If(e.acc.market \notin DOMAIN S.st, "sub")
Enabled(st, m) == If(Disabled(st, m), "dis")
DiscReasons(e) == IF ~Has(e, "disc") THEN {} ELSE
  IF e.acc.disc \notin DOMAIN S.ts THEN {"sub", "disc"} ELSE If(S.ts[e.acc.disc].own # e.acc.owner, "disc")

TierOf(st, m, e) ==
  IF S.st[m].stable THEN TierStable
  ELSE IF ~Has(e, "disc") THEN 0
  ELSE LET d == e.acc.disc
           bal == st.tok[d]
       IN CASE S.ts[d].mint = "SRM" -> SrmTier(bal)
            [] S.ts[d].mint = "MSRM" -> IF One \preceq bal THEN TierMsrm ELSE 0
            [] OTHER -> 0

Refuse(st, r) == [r |-> r, s |-> st, selft |-> FALSE]
Accept(st) == [r |-> {}, s |-> st, selft |-> FALSE]

-----------------------------------------------------------------------------
\* NewOrderV3

NewAccReasons(st, m, e, o) ==
  LET c == S.st[m] IN
  Is(e, "rq", c.rq) \cup Is(e, "eq", c.eq) \cup Is(e, "bids", c.bids) \cup Is(e, "asks", c.asks)
  \cup Is(e, "cv", c.cv) \cup Is(e, "pv", c.pv) \cup Is(e, "spl", "spl")
  \cup If(~IsMint(e.acc.payer, IF o.s = "bid" THEN c.pm ELSE c.cm), "sub")
  \cup Sig(e, "owner") \cup DiscReasons(e) \cup Enabled(st, m)
  \cup OoReasons(st, m, e.acc.oo, e.acc.owner, TRUE, "none")

PlaceOrder(st, m, e, o) ==
  LET r0 == NewAccReasons(st, m, e, o) \cup If(o.ts # MaxTs /\ o.ts \prec e.now, "expired") IN
  IF r0 # {} THEN Refuse(st, r0) ELSE
  LET c  == S.st[m]
      oo == e.acc.oo
      bid == o.s = "bid"
      u0 == IF st.oo[oo].f = "live" THEN st.oo[oo] ELSE FreshOO(m, e.acc.owner, st.oo[oo].rb)
      lock == IF bid THEN o.pc ELSE o.qty \otimes c.cl
      free == NMin(lock, IF bid THEN u0.pf ELSE u0.cf)
      dep == lock \ominus free
      r1 == If(st.tok[e.acc.payer] \prec dep, "funds")
            \cup If(dep # Zero /\ S.ts[e.acc.payer].own # e.acc.owner, "payer")
            \cup If(Cardinality(UsedSlots(u0)) >= NSlots, "slots")
  IN IF r1 # {} THEN Refuse(st, r1) ELSE
  LET id == OrderId(o.s, o.px, st.mk[m].seq)
      n == FirstFree(u0)
      in == [px |-> o.px, own |-> oo, sl |-> n, id |-> id, t |-> TierOf(st, m, e), cid |-> o.cid,
             ty |-> o.ty, stb |-> o.stb, take |-> FALSE]
      w == Match(st, m, o.s, in, o.qty, o.pc, o.lim)
      x == w.x
      r2 == If(x.abort, "selftrade") \cup If(~x.abort /\ ~Fits(st, m, Len(w.ev)), "eqfull")
  IN IF r2 # {} THEN [Refuse(st, r2) EXCEPT !.selft = x.selft] ELSE
  LET u1 == AddSlot(u0, [n |-> n, id |-> id, s |-> o.s, cid |-> o.cid])
      coinDep == IF bid THEN Zero ELSE dep
      pcDep == IF bid THEN dep ELSE Zero
      u2 == [u1 EXCEPT
              !.cf = ((@ \ominus (IF bid THEN Zero ELSE free)) \oplus (x.coinCr \otimes c.cl)) \oplus (x.coinUnl \otimes c.cl),
              !.ct = ((@ \oplus coinDep) \oplus (x.coinCr \otimes c.cl)) \ominus (x.coinDb \otimes c.cl),
              !.pf = ((@ \ominus (IF bid THEN free ELSE Zero)) \oplus x.pcCr) \oplus x.pcUnl,
              !.pt = ((@ \oplus pcDep) \oplus x.pcCr) \ominus x.pcDb]
      s1 == [st EXCEPT !.oo[oo] = u2, !.bk[m] = w.bk,
              !.mk[m].seq = @ \oplus One,
              !.mk[m].cd = @ \oplus coinDep,
              !.mk[m].pd = (@ \oplus pcDep) \ominus x.fee,
              !.mk[m].fees = @ \oplus (x.fee \ominus x.ref),
              !.mk[m].rr = @ \oplus x.ref]
      s2 == Push(s1, m, w.ev)
      s3 == IF dep = Zero THEN s2 ELSE Move(s2, e.acc.payer, IF bid THEN c.pv ELSE c.cv, dep)
  IN [r |-> {}, s |-> s3, selft |-> x.selft]

New(st, e) ==
  IF MktSub(e) # {} THEN Refuse(st, {"sub"} \cup Sig(e, "owner")) ELSE PlaceOrder(st, e.acc.market, e, e.o)

-----------------------------------------------------------------------------
\* Cancels

CancelAccReasons(st, m, e) ==
  LET c == S.st[m] IN
  Is(e, "bids", c.bids) \cup Is(e, "asks", c.asks) \cup Is(e, "eq", c.eq) \cup Sig(e, "owner")
  \cup OoReasons(st, m, e.acc.oo, e.acc.owner, FALSE, "none")

\* cancel one order known to rest on `side`
CancelAt(st, m, oo, side, id) ==
  LET q == IF side = "bid" THEN st.bk[m].b ELSE st.bk[m].a
      i == IndexOf(q, id)
      x == q[i]
      amt == LockedBy(m, side, x)
      s1 == IF side = "bid" THEN [st EXCEPT !.bk[m].b = DropAt(@, i), !.oo[oo].pf = @ \oplus amt]
                            ELSE [st EXCEPT !.bk[m].a = DropAt(@, i), !.oo[oo].cf = @ \oplus amt]
  IN  Push(s1, m, <<OutEv(side, FALSE, x, amt, Zero)>>)

Resting(st, m, side, id) == IndexOf(IF side = "bid" THEN st.bk[m].b ELSE st.bk[m].a, id) # 0
RestingOrder(st, m, side, id) == LET q == IF side = "bid" THEN st.bk[m].b ELSE st.bk[m].a IN q[IndexOf(q, id)]
SlotHolds(x, n, id, side) == \E i \in DOMAIN x.sl : x.sl[i].n = n /\ x.sl[i].id = id /\ x.sl[i].s = side

CancelOne(st, m, oo, side, id) ==
  IF ~Resting(st, m, side, id) THEN Refuse(st, {"notresting"}) ELSE
  LET x == RestingOrder(st, m, side, id) IN
  IF x.own # oo \/ ~SlotHolds(st.oo[oo], x.sl, id, side) THEN Refuse(st, {"notyours"}) ELSE
  IF ~Fits(st, m, 1) THEN Refuse(st, {"eqfull"}) ELSE Accept(CancelAt(st, m, oo, side, id))

Cancel(st, e) ==
  IF MktSub(e) # {} THEN Refuse(st, {"sub"} \cup Sig(e, "owner")) ELSE
  LET m == e.acc.market
      r == CancelAccReasons(st, m, e)
  IN IF r # {} THEN Refuse(st, r) ELSE CancelOne(st, m, e.acc.oo, e.s, e.id)

CancelC(st, e) ==
  IF MktSub(e) # {} THEN Refuse(st, {"sub"} \cup Sig(e, "owner")) ELSE
  LET m == e.acc.market
      r == CancelAccReasons(st, m, e)
  IN IF r # {} THEN Refuse(st, r) ELSE
  LET sl == st.oo[e.acc.oo].sl
      hit == SelectSeq(sl, LAMBDA z : z.cid = e.cid)
  IN IF e.cid = Zero \/ hit = <<>> THEN Refuse(st, {"notresting"})
     ELSE CancelOne(st, m, e.acc.oo, hit[1].s, hit[1].id)

\* every slot whose client id is listed, in slot order; slots whose order no longer rests are skipped
RECURSIVE CancelSlots(_, _, _, _)
CancelSlots(st, m, oo, todo) ==
  IF todo = <<>> THEN Accept(st) ELSE
  LET z == Head(todo) IN
  IF ~Resting(st, m, z.s, z.id) THEN CancelSlots(st, m, oo, Tail(todo)) ELSE
  LET w == CancelOne(st, m, oo, z.s, z.id)
  IN IF w.r # {} THEN w ELSE CancelSlots(w.s, m, oo, Tail(todo))

Batch(st, m, e, cids) ==
  LET r == CancelAccReasons(st, m, e)
  IN IF r # {} THEN Refuse(st, r) ELSE
  LET want == Rng(cids) \ {Zero}
      w == CancelSlots(st, m, e.acc.oo, SelectSeq(st.oo[e.acc.oo].sl, LAMBDA z : z.cid # Zero /\ z.cid \in want))
  IN IF w.r # {} THEN Refuse(st, w.r) ELSE w

CancelB(st, e) ==
  IF MktSub(e) # {} THEN Refuse(st, {"sub"} \cup Sig(e, "owner")) ELSE Batch(st, e.acc.market, e, e.cids)

-----------------------------------------------------------------------------
\* Replace: batch cancel, then place in sequence; all or nothing

RECURSIVE PlaceAll(_, _, _, _)
PlaceAll(st, m, e, os) ==
  IF os = <<>> THEN Accept(st) ELSE
  LET w == PlaceOrder(st, m, e, Head(os)) IN
  IF w.r # {} THEN w ELSE LET z == PlaceAll(w.s, m, e, Tail(os)) IN [z EXCEPT !.selft = @ \/ w.selft]

Replace(st, e) ==
  IF MktSub(e) # {} THEN Refuse(st, {"sub"} \cup Sig(e, "owner")) ELSE
  LET m == e.acc.market
      r0 == UNION {NewAccReasons(st, m, e, e.os[i]) : i \in DOMAIN e.os}
      r1 == IF \E i \in DOMAIN e.os : e.os[i].ts # MaxTs /\ e.os[i].ts \prec e.now THEN {"expired"} ELSE {}
  IN IF r0 \cup r1 # {} THEN Refuse(st, r0 \cup r1) ELSE
  LET c == Batch(st, m, e, [i \in DOMAIN e.os |-> e.os[i].cid])
  IN IF c.r # {} THEN Refuse(st, c.r) ELSE
  LET p == PlaceAll(c.s, m, e, e.os)
  IN IF p.r # {} THEN [Refuse(st, p.r) EXCEPT !.selft = p.selft] ELSE p

-----------------------------------------------------------------------------
\* SendTake: immediate swap against the book

Take(st, e) ==
  IF MktSub(e) # {} THEN Refuse(st, {"sub"} \cup Sig(e, "owner")) ELSE
  LET m == e.acc.market
      c == S.st[m]
      o == e.o
      bid == o.s = "bid"
      r0 == Is(e, "rq", c.rq) \cup Is(e, "eq", c.eq) \cup Is(e, "bids", c.bids) \cup Is(e, "asks", c.asks)
            \cup Is(e, "cv", c.cv) \cup Is(e, "pv", c.pv) \cup Is(e, "spl", "spl") \cup Is(e, "vs", c.vs)
            \cup If(~IsMint(e.acc.cw, c.cm), "sub") \cup If(~IsMint(e.acc.pw, c.pm), "sub")
            \cup Sig(e, "owner") \cup DiscReasons(e) \cup Enabled(st, m)
  IN IF r0 # {} THEN Refuse(st, r0) ELSE
  LET id == OrderId(o.s, o.px, st.mk[m].seq)
      in == [px |-> o.px, own |-> "sys", sl |-> 0, id |-> id, t |-> TierOf(st, m, e), cid |-> Zero,
             ty |-> "ioc", stb |-> "abort", take |-> TRUE]
      w == Match(st, m, o.s, in, o.qty, o.pc, o.lim)
      x == w.x
      coinIn == x.coinDb \otimes c.cl
      coinOut == x.coinCr \otimes c.cl
      src == IF bid THEN e.acc.pw ELSE e.acc.cw
      dst == IF bid THEN e.acc.cw ELSE e.acc.pw
      dep == IF bid THEN x.pcDb ELSE coinIn
      wd == IF bid THEN coinOut ELSE x.pcCr
      r1 == If(~Fits(st, m, Len(w.ev)), "eqfull")
            \cup If(IF bid THEN x.coinCr \prec o.minc ELSE x.pcCr \prec o.minp, "minamt")
            \cup If(st.tok[src] \prec dep, "funds")
            \cup If(dep # Zero /\ S.ts[src].own # e.acc.owner, "payer")
  IN IF r1 # {} THEN Refuse(st, r1) ELSE
  LET s1 == [st EXCEPT !.bk[m] = w.bk,
              !.mk[m].seq = @ \oplus One,
              !.mk[m].cd = (@ \oplus coinIn) \ominus coinOut,
              !.mk[m].pd = ((@ \oplus x.pcDb) \ominus x.pcCr) \ominus x.fee,
              \* nobody settles for a swap, so its whole fee is market fees
              !.mk[m].fees = @ \oplus x.fee]
      s2 == Push(s1, m, w.ev)
      s3 == IF dep = Zero THEN s2 ELSE Move(s2, src, IF bid THEN c.pv ELSE c.cv, dep)
      s4 == IF wd = Zero THEN s3 ELSE Move(s3, IF bid THEN c.cv ELSE c.pv, dst, wd)
  IN Accept(s4)

-----------------------------------------------------------------------------
\* ConsumeEvents

EventFits(x, v) == SlotHolds(x, v.sl, v.id, v.s)

OnEvent(x, v) ==
  IF v.k = "fill" THEN
    IF ~v.mk THEN [x EXCEPT !.rb = @ \oplus RefShare(v.fee)]
    ELSE IF v.s = "bid" THEN [x EXCEPT !.pt = @ \ominus v.paid, !.ct = @ \oplus v.rcv, !.cf = @ \oplus v.rcv]
    ELSE [x EXCEPT !.ct = @ \ominus v.paid, !.pt = @ \oplus v.rcv, !.pf = @ \oplus v.rcv]
  ELSE
    LET y == IF ~v.rel THEN x
             ELSE IF v.s = "bid" THEN [x EXCEPT !.pf = @ \oplus v.rcv] ELSE [x EXCEPT !.cf = @ \oplus v.rcv]
    IN IF v.paid = Zero THEN DropSlot(y, v.sl) ELSE y

RECURSIVE ConsumeOOs(_, _, _, _)
\* [ok, oo] after processing evs[1..k]
ConsumeOOs(oo, m, evs, k) ==
  IF k = 0 THEN [ok |-> TRUE, oo |-> oo] ELSE
  LET v == Head(evs) IN
  IF v.own \notin DOMAIN oo THEN [ok |-> FALSE, oo |-> oo] ELSE
  LET x == oo[v.own] IN
  IF x.f # "live" \/ x.m # m \/ ~EventFits(x, v) THEN [ok |-> FALSE, oo |-> oo]
  ELSE ConsumeOOs([oo EXCEPT ![v.own] = OnEvent(x, v)], m, Tail(evs), k - 1)

\* how many events a crank with those accounts and that limit has to process
CrankReach(st, m, e) ==
  LET q == st.ev[m]
      given == Rng(e.oos)
      n == IF e.lim < Len(q) THEN e.lim ELSE Len(q)
      miss == {i \in 1..n : q[i].own \notin given}
  IN IF miss = {} THEN n ELSE (CHOOSE i \in miss : \A j \in miss : i =< j) - 1

CrankReasons(st, e) ==
  IF MktSub(e) # {} THEN {"sub"} ELSE
  LET m == e.acc.market
      c == S.st[m] IN
  Is(e, "eq", c.eq) \cup If(Len(e.oos) = 0, "accts")
  \cup (IF e.op = "consume" THEN If(c.cra # "none", "perm")
        ELSE If(c.cra = "none" \/ e.acc.auth # c.cra, "perm") \cup Sig(e, "auth"))

\* k: number of events processed
Consume(st, e, k) ==
  LET r == CrankReasons(st, e) IN
  IF r # {} THEN Refuse(st, r) ELSE
  LET m == e.acc.market
      w == ConsumeOOs(st.oo, m, st.ev[m], k)
  IN IF ~w.ok THEN Refuse(st, {"corrupt"}) ELSE Accept([PopN(st, m, k) EXCEPT !.oo = w.oo])

-----------------------------------------------------------------------------
\* SettleFunds

Settle(st, e) ==
  IF MktSub(e) # {} THEN Refuse(st, {"sub"} \cup Sig(e, "owner")) ELSE
  LET m == e.acc.market
      c == S.st[m]
      r == Is(e, "cv", c.cv) \cup Is(e, "pv", c.pv) \cup Is(e, "vs", c.vs) \cup Is(e, "spl", "spl")
           \cup If(~IsMint(e.acc.cw, c.cm), "sub") \cup If(~IsMint(e.acc.pw, c.pm), "sub")
           \cup If(Has(e, "ref") /\ ~IsMint(e.acc.ref, c.pm), "sub")
           \cup Sig(e, "owner") \cup OoReasons(st, m, e.acc.oo, e.acc.owner, FALSE, "none")
  IN IF r # {} THEN Refuse(st, r) ELSE
  LET oo == e.acc.oo
      u == st.oo[oo]
      s1 == Move(Move(st, c.cv, e.acc.cw, u.cf), c.pv, e.acc.pw, u.pf)
      s2 == IF Has(e, "ref") THEN Move(s1, c.pv, e.acc.ref, u.rb) ELSE [s1 EXCEPT !.mk[m].fees = @ \oplus u.rb]
  IN Accept([s2 EXCEPT !.mk[m].cd = @ \ominus u.cf, !.mk[m].pd = @ \ominus u.pf, !.mk[m].rr = @ \ominus u.rb,
              !.oo[oo] = [u EXCEPT !.cf = Zero, !.pf = Zero, !.ct = @ \ominus u.cf, !.pt = @ \ominus u.pf, !.rb = Zero]])

-----------------------------------------------------------------------------
\* Administration

Disable(st, e) ==
  IF MktSub(e) # {} THEN Refuse(st, {"sub"}) ELSE
  LET m == e.acc.market
      r == Sig(e, "auth") \cup If(e.acc.auth # "DIS", "admin") \cup Enabled(st, m)
  IN IF r # {} THEN Refuse(st, r) ELSE Accept([st EXCEPT !.mk[m].fl = @ + FDisabled])

Sweep(st, e) ==
  IF MktSub(e) # {} THEN Refuse(st, {"sub"}) ELSE
  LET m == e.acc.market
      c == S.st[m]
      r == Sig(e, "auth") \cup If(e.acc.auth # "SWP", "admin") \cup Enabled(st, m)
           \cup Is(e, "pv", c.pv) \cup Is(e, "vs", c.vs) \cup Is(e, "spl", "spl") \cup If(~IsMint(e.acc.dst, c.pm), "sub")
  IN IF r # {} THEN Refuse(st, r) ELSE
     Accept([Move(st, c.pv, e.acc.dst, st.mk[m].fees) EXCEPT !.mk[m].fees = Zero])

InitOO(st, e) ==
  IF MktSub(e) # {} THEN Refuse(st, {"sub"} \cup Sig(e, "owner")) ELSE
  LET m == e.acc.market
      a == IF Has(e, "auth") THEN e.acc.auth ELSE "none"
      r == Sig(e, "owner") \cup (IF Has(e, "auth") THEN Sig(e, "auth") ELSE {}) \cup Enabled(st, m)
           \cup OoReasons(st, m, e.acc.oo, e.acc.owner, TRUE, a)
  IN IF r # {} THEN Refuse(st, r) ELSE
     IF st.oo[e.acc.oo].f = "live" THEN Accept(st)
     ELSE Accept([st EXCEPT !.oo[e.acc.oo] = FreshOO(m, e.acc.owner, st.oo[e.acc.oo].rb)])

EmptyOO(u) == u.sl = <<>> /\ u.ct = Zero /\ u.pt = Zero /\ u.rb = Zero

Close(st, e) ==
  IF MktSub(e) # {} THEN Refuse(st, {"sub"} \cup Sig(e, "owner")) ELSE
  LET m == e.acc.market
      oo == e.acc.oo
      r == Sig(e, "owner") \cup OoReasons(st, m, oo, e.acc.owner, FALSE, "none")
  IN IF r # {} THEN Refuse(st, r) ELSE
     IF ~EmptyOO(st.oo[oo]) THEN Refuse(st, {"notempty"}) ELSE
     LET l == st.lam[oo]
         s1 == [st EXCEPT !.lam[e.acc.dest] = @ \oplus l]
     IN Accept([s1 EXCEPT !.lam[oo] = Zero, !.oo[oo].f = "closed"])

-----------------------------------------------------------------------------
\* Prune: which of the account's orders go is free (up to the limit); R is the sequence removed [s, id]

PruneReasons(st, e) ==
  IF MktSub(e) # {} THEN {"sub"} ELSE
  LET m == e.acc.market
      c == S.st[m] IN
  Sig(e, "auth") \cup If(c.pra = "none" \/ e.acc.auth # c.pra, "perm") \cup Enabled(st, m)
  \cup Is(e, "bids", c.bids) \cup Is(e, "asks", c.asks) \cup Is(e, "eq", c.eq)
  \cup OoReasons(st, m, e.acc.oo, e.acc.ooowner, FALSE, "none")

OwnOrders(st, m, oo) ==
  {[s |-> "bid", id |-> st.bk[m].b[i].id] : i \in {i \in DOMAIN st.bk[m].b : st.bk[m].b[i].own = oo}}
  \cup {[s |-> "ask", id |-> st.bk[m].a[i].id] : i \in {i \in DOMAIN st.bk[m].a : st.bk[m].a[i].own = oo}}
\* a tree of n orders has 2n - 1 nodes; the limit counts nodes looked at
TreeNodes(q) == IF q = <<>> THEN 0 ELSE 2 * Len(q) - 1
CoversBook(st, m, lim) == lim >= TreeNodes(st.bk[m].b) + TreeNodes(st.bk[m].a)

RECURSIVE CancelList(_, _, _, _)
CancelList(st, m, oo, q) == IF q = <<>> THEN st ELSE CancelList(CancelAt(st, m, oo, Head(q).s, Head(q).id), m, oo, Tail(q))

PruneLegal(st, m, oo, lim, R) ==
  /\ Rng(R) \subseteq OwnOrders(st, m, oo)
  /\ Cardinality(Rng(R)) = Len(R)
  /\ Len(R) =< lim
  /\ CoversBook(st, m, lim) => Rng(R) = OwnOrders(st, m, oo)

Prune(st, e, R) ==
  LET r == PruneReasons(st, e) IN
  IF r # {} THEN Refuse(st, r) ELSE
  LET m == e.acc.market
      oo == e.acc.oo
  IN IF ~PruneLegal(st, m, oo, e.lim, R) THEN Refuse(st, {"prune"})
     ELSE IF ~Fits(st, m, Len(R)) THEN Refuse(st, {"eqfull"})
     ELSE Accept(CancelList(st, m, oo, R))

-----------------------------------------------------------------------------
\* Everything except the two relational instructions (consume, prune), whose free choice is an argument

Apply(st, e) ==
  CASE e.op = "new" -> New(st, e)
    [] e.op = "replace" -> Replace(st, e)
    [] e.op = "take" -> Take(st, e)
    [] e.op = "cancel" -> Cancel(st, e)
    [] e.op = "cancelc" -> CancelC(st, e)
    [] e.op = "cancelb" -> CancelB(st, e)
    [] e.op = "settle" -> Settle(st, e)
    [] e.op = "disable" -> Disable(st, e)
    [] e.op = "sweep" -> Sweep(st, e)
    [] e.op = "close" -> Close(st, e)
    [] e.op = "initoo" -> InitOO(st, e)
    [] e.op \in {"consume", "consumep"} -> Consume(st, e, CrankReach(st, IF MktSub(e) = {} THEN e.acc.market ELSE CHOOSE m \in DOMAIN S.st : TRUE, e))
    [] e.op = "prune" -> Prune(st, e, e.R)

-----------------------------------------------------------------------------
(***************************************************************************)
(* State invariants                                                         *)
(***************************************************************************)
SumList(q, F(_)) == FoldSeq(LAMBDA x, acc : F(x) \oplus acc, Zero, q)
SumOver(X, F(_)) == FoldSet(LAMBDA x, acc : F(x) \oplus acc, Zero, X)

\* accounts bound to market m (closed ones hold nothing)
BoundOO(st, m) == {o \in DOMAIN st.oo : st.oo[o].f \in {"live", "closed"} /\ st.oo[o].m = m}

\* what the vaults hold beyond what the market records
CoinExcess(st, m) == st.tok[S.st[m].cv] \ominus st.mk[m].cd
PcExcess(st, m) == st.tok[S.st[m].pv] \ominus ((st.mk[m].pd \oplus st.mk[m].fees) \oplus st.mk[m].rr)

\* deposits = sum of account totals, adjusted by maker fills still queued (maker's own books lag behind)
MakerCoin(v) == IF v.k = "fill" /\ v.mk THEN (IF v.s = "bid" THEN v.rcv ELSE Zero \ominus v.paid) ELSE Zero
MakerPc(v) == IF v.k = "fill" /\ v.mk THEN (IF v.s = "ask" THEN v.rcv ELSE Zero \ominus v.paid) ELSE Zero
DepositsMatch(st, m) ==
  /\ st.mk[m].cd = SumOver(BoundOO(st, m), LAMBDA o : st.oo[o].ct) \oplus SumList(st.ev[m], MakerCoin)
  /\ st.mk[m].pd = SumOver(BoundOO(st, m), LAMBDA o : st.oo[o].pt) \oplus SumList(st.ev[m], MakerPc)

\* total - free = resting orders + what queued maker fills still take + what queued events still release
OwnSeq(q, o) == SelectSeq(q, LAMBDA v : v.own = o)
LockedPc(st, m, o) ==
  SumList(OwnSeq(st.bk[m].b, o), LAMBDA x : LockedBy(m, "bid", x))
  \oplus SumList(OwnSeq(st.ev[m], o), LAMBDA v :
        IF v.s # "bid" THEN Zero ELSE IF v.k = "fill" THEN (IF v.mk THEN v.paid ELSE Zero) ELSE IF v.rel THEN v.rcv ELSE Zero)
LockedCoin(st, m, o) ==
  SumList(OwnSeq(st.bk[m].a, o), LAMBDA x : LockedBy(m, "ask", x))
  \oplus SumList(OwnSeq(st.ev[m], o), LAMBDA v :
        IF v.s # "ask" THEN Zero ELSE IF v.k = "fill" THEN (IF v.mk THEN v.paid ELSE Zero) ELSE IF v.rel THEN v.rcv ELSE Zero)
LockedMatch(st, o) ==
  LET u == st.oo[o] IN
  u.f \in {"live", "closed"} =>
    /\ u.m \in DOMAIN S.st
    /\ u.cf \preceq u.ct /\ u.pf \preceq u.pt /\ Zero \preceq u.cf /\ Zero \preceq u.pf
    /\ u.ct \ominus u.cf = LockedCoin(st, u.m, o)
    /\ u.pt \ominus u.pf = LockedPc(st, u.m, o)

\* accrued referrer rebates are all on their way to somebody
RebatesBacked(st, m) ==
  st.mk[m].rr = SumOver(BoundOO(st, m), LAMBDA o : st.oo[o].rb)
                \oplus SumList(st.ev[m], LAMBDA v : IF v.k = "fill" /\ ~v.mk THEN RefShare(v.fee) ELSE Zero)

Sorted(side, q) == \A i \in 1..(Len(q) - 1) : Before(side, q[i], q[i + 1])
BookSound(st, m) ==
  LET b == st.bk[m].b
      a == st.bk[m].a IN
  /\ Sorted("bid", b) /\ Sorted("ask", a)
  /\ \A i \in DOMAIN b : Zero \prec b[i].qty
  /\ \A i \in DOMAIN a : Zero \prec a[i].qty
  /\ Len(b) =< S.st[m].cap /\ Len(a) =< S.st[m].cap
  /\ (b # <<>> /\ a # <<>>) => b[1].px \prec a[1].px

\* every resting order and every queued event resolves to its owner's slot; ids carry price and rank
SlotMapped(st, m, side, x) ==
  /\ x.own \in DOMAIN st.oo
  /\ st.oo[x.own].f = "live" /\ st.oo[x.own].m = m
  /\ Cardinality({i \in DOMAIN st.oo[x.own].sl : st.oo[x.own].sl[i].id = x.id}) = 1
  /\ \E i \in DOMAIN st.oo[x.own].sl :
       LET z == st.oo[x.own].sl[i] IN z.n = x.sl /\ z.id = x.id /\ z.s = side /\ z.cid = x.cid
RankOf(side, x) == LET low == x.id \ominus (x.px \otimes IdBase) IN IF side = "bid" THEN (IdBase \ominus One) \ominus low ELSE low
IdsSound(st, m) ==
  LET b == st.bk[m].b
      a == st.bk[m].a
      v == st.ev[m] IN
  /\ \A i \in DOMAIN b : SlotMapped(st, m, "bid", b[i]) /\ RankOf("bid", b[i]) \prec st.mk[m].seq
  /\ \A i \in DOMAIN a : SlotMapped(st, m, "ask", a[i]) /\ RankOf("ask", a[i]) \prec st.mk[m].seq
  /\ LET ranks == {RankOf("bid", b[i]) : i \in DOMAIN b} \cup {RankOf("ask", a[i]) : i \in DOMAIN a}
     IN Cardinality(ranks) = Len(a) + Len(b)
  /\ \A i \in DOMAIN v : SlotMapped(st, m, v[i].s, v[i])

RingSound(st, m) == st.mk[m].eqn = Len(st.ev[m]) /\ st.mk[m].eqn =< S.st[m].eqcap /\ st.mk[m].eqh \in 0..(S.st[m].eqcap - 1)

SlotsSound(st, o) ==
  LET u == st.oo[o] IN
  u.f = "live" => /\ Len(u.sl) =< NSlots
                  /\ \A i \in 1..(Len(u.sl) - 1) : u.sl[i].n < u.sl[i + 1].n
                  /\ \A i \in DOMAIN u.sl : u.sl[i].n \in 0..(NSlots - 1)

\* an account's slots all stand for something outstanding: a resting order or a queued event
NoLostSlot(st, o) ==
  LET u == st.oo[o] IN
  u.f = "live" =>
    \A i \in DOMAIN u.sl :
      LET z == u.sl[i] IN
      \/ \E j \in DOMAIN st.bk[u.m].b : st.bk[u.m].b[j].own = o /\ st.bk[u.m].b[j].id = z.id
      \/ \E j \in DOMAIN st.bk[u.m].a : st.bk[u.m].a[j].own = o /\ st.bk[u.m].a[j].id = z.id
      \/ \E j \in DOMAIN st.ev[u.m] : LET v == st.ev[u.m][j] IN v.own = o /\ v.id = z.id /\ v.k = "out" /\ v.paid = Zero
=============================================================================
