------------------------------- MODULE Rules -------------------------------
(***************************************************************************)
(* Properties of single steps, stated without reference to how Dex computes  *)
(* a step: from the state before (pre), the state after (post) and the       *)
(* instruction e with what it changed (e.ev[m] = [pop, push], e.tok, e.oo,    *)
(* e.lam: the changed entries). Evaluated on every recorded step (Trace) and  *)
(* on every transition of the bounded model (MC).                             *)
(***************************************************************************)
EXTENDS Dex

Fld(e, f) == IF f \in DOMAIN e THEN e[f] ELSE <<>>

\* what the instruction did to the queue of market m
Popped(e, m) == IF "ev" \in DOMAIN e /\ m \in DOMAIN e.ev THEN e.ev[m].pop ELSE 0
Pushed(e, m) == IF "ev" \in DOMAIN e /\ m \in DOMAIN e.ev THEN e.ev[m].push ELSE <<>>

MatchOps == {"new", "replace", "take"}
ExitOps == {"cancel", "cancelc", "cancelb", "settle", "consume", "consumep", "sweep", "close"}
PermOps == {"initoo", "prune", "consume", "consumep"}

\* facts about the fills an instruction produced, read off the queued events alone
Makers(q) == SelectSeq(q, LAMBDA v : v.k = "fill" /\ v.mk)
Takers(q) == SelectSeq(q, LAMBDA v : v.k = "fill" /\ ~v.mk)
CoinOf(v) == IF v.s = "bid" THEN v.rcv ELSE v.paid
MakerVal(v) == IF v.s = "bid" THEN v.paid ELSE v.rcv
TakerVal(v) == IF v.s = "bid" THEN v.paid \ominus v.fee ELSE v.rcv \oplus v.fee
MakerView(v) == [own |-> v.own, id |-> v.id, s |-> v.s, coin |-> CoinOf(v), val |-> MakerVal(v)]
TakerView(v) == [own |-> v.own, id |-> v.id, s |-> v.s, coin |-> (IF v.s = "bid" THEN v.rcv ELSE v.paid), val |-> TakerVal(v)]
MapSeq(q, F(_)) == [i \in DOMAIN q |-> F(q[i])]

\* C03: same makers, in the same order, same quantity and value on both sides
FillsAsSpecified(q, x) ==
  /\ MapSeq(Makers(q), MakerView) = MapSeq(Makers(x), MakerView)
  /\ MapSeq(Takers(q), TakerView) = MapSeq(Takers(x), TakerView)

\* C03, independent of the matching specification: one incoming order consumes the opposite book from its best end,
\* in book order, each order completely before the next is touched, at the resting order's price; nothing else in
\* that book changes
RECURSIVE Distinct(_)
Distinct(q) == IF q = <<>> THEN <<>> ELSE
  IF Len(q) > 1 /\ q[1] = q[2] THEN Distinct(Tail(q)) ELSE <<q[1]>> \o Distinct(Tail(q))
PriceTime(pre, post, e, m) ==
  LET o == e.o
      c == S.st[m]
      q == SelectSeq(Pushed(e, m), LAMBDA v : v.s # o.s)
      hit == Distinct([i \in DOMAIN q |-> q[i].id])
      opp == IF o.s = "bid" THEN pre.bk[m].a ELSE pre.bk[m].b
      left == IF o.s = "bid" THEN post.bk[m].a ELSE post.bk[m].b
      n == Len(hit)
      gone == Len(opp) - Len(left)
      mk == Makers(q)
  IN /\ n =< Len(opp)
     /\ \A i \in 1..n : hit[i] = opp[i].id
     /\ gone \in {n - 1, n}
     /\ SubSeq(left, n - gone + 1, Len(left)) = SubSeq(opp, n + 1, Len(opp))
     /\ gone # n => left[1] = [opp[n] EXCEPT !.qty = left[1].qty] /\ Zero \prec left[1].qty /\ left[1].qty \prec opp[n].qty
     /\ \A i \in DOMAIN mk : \E j \in 1..n :
          /\ opp[j].id = mk[i].id /\ opp[j].own = mk[i].own
          /\ MakerVal(mk[i]) \otimes c.cl = (opp[j].px \otimes c.pl) \otimes CoinOf(mk[i])
          /\ IF j < n \/ gone = n THEN CoinOf(mk[i]) = opp[j].qty \otimes c.cl
             ELSE CoinOf(mk[i]) = (opp[j].qty \ominus left[1].qty) \otimes c.cl

\* C04, independent of the matching specification
WithinLimits(pre, post, e, m) ==
  LET c == S.st[m]
      o == e.o
      q == Pushed(e, m)
      mk == Makers(q)
      bid == o.s = "bid"
      coin == SumList(mk, CoinOf)
      val == SumList(mk, MakerVal)
      fee == (post.mk[m].fees \oplus post.mk[m].rr) \ominus (pre.mk[m].fees \oplus pre.mk[m].rr)
      selfouts == IF e.op = "take" THEN <<>> ELSE
         SelectSeq(q, LAMBDA v : v.k = "out" /\ v.own = e.acc.oo /\ v.rel /\ v.s # o.s)
      priceOk == \A i \in DOMAIN mk :
         IF bid THEN MakerVal(mk[i]) \otimes c.cl \preceq (o.px \otimes c.pl) \otimes CoinOf(mk[i])
         ELSE (o.px \otimes c.pl) \otimes CoinOf(mk[i]) \preceq MakerVal(mk[i]) \otimes c.cl
      \* quote and base that left / reached the taker
      w == IF e.op = "take"
           THEN [pc |-> post.tok[e.acc.pw] \ominus pre.tok[e.acc.pw], coin |-> post.tok[e.acc.cw] \ominus pre.tok[e.acc.cw]]
           ELSE LET d == pre.tok[e.acc.payer] \ominus post.tok[e.acc.payer]
                    u == pre.oo[e.acc.oo]
                    v == post.oo[e.acc.oo]
                IN [pc |-> (v.pt \ominus u.pt) \ominus (IF bid THEN d ELSE Zero), coin |-> (v.ct \ominus u.ct) \ominus (IF bid THEN Zero ELSE d)]
      plain == e.op # "take" \/ (e.acc.cw \notin {c.cv, c.pv} /\ e.acc.pw \notin {c.cv, c.pv})
  IN /\ \A i \in DOMAIN mk : mk[i].s # o.s
     /\ priceOk
     /\ coin \preceq (o.qty \otimes c.cl)
     /\ Len(mk) + Len(selfouts) =< o.lim
     /\ bid => (val \oplus fee) \preceq o.pc
     /\ plain => IF bid THEN w.coin = coin /\ w.pc = Zero \ominus (val \oplus fee)
                 ELSE w.coin = Zero \ominus coin /\ w.pc = val \ominus fee

\* C04 for the orders of a replacement: no more than specified was traded, and what was traded was paid and received exactly
ReplaceWithin(x, post, e, q, xq) ==
  /\ Len(Makers(q)) =< Len(Makers(xq))
  /\ SumList(Makers(q), CoinOf) \preceq SumList(Makers(xq), CoinOf)
  /\ FillsAsSpecified(q, xq) => x.oo[e.acc.oo].ct = post.oo[e.acc.oo].ct /\ x.oo[e.acc.oo].pt = post.oo[e.acc.oo].pt /\ x.tok = post.tok

\* C08
FeesExact(pre, post, e, m, tier) ==
  LET q == Pushed(e, m)
      mk == Makers(q)
      tk == Takers(q)
      c == S.st[m]
      dr == post.mk[m].rr \ominus pre.mk[m].rr
      df == post.mk[m].fees \ominus pre.mk[m].fees
  IN /\ \A i \in DOMAIN mk : mk[i].fee = Zero
     /\ \A i \in DOMAIN mk : MakerVal(mk[i]) \otimes c.cl = ((mk[i].id \oslash IdBase) \otimes c.pl) \otimes CoinOf(mk[i])
     /\ IF e.op = "take"
        THEN /\ dr = Zero
             /\ df = SumList(mk, LAMBDA v : TakerFee(tier, MakerVal(v)))
        ELSE /\ \A i \in DOMAIN tk : tk[i].t \in 0..(Len(FeeK) - 1) /\ tk[i].fee = TakerFee(tk[i].t, TakerVal(tk[i]))
             /\ Len(tk) = Len(mk)
             /\ dr = SumList(tk, LAMBDA v : RefShare(v.fee))
             /\ df = SumList(tk, LAMBDA v : v.fee \ominus RefShare(v.fee))

\* C09: the tier written on what the order left behind
TierRecorded(pre, post, e, m, tier) ==
  LET q == Takers(Pushed(e, m))
      old == {pre.bk[m].b[i].id : i \in DOMAIN pre.bk[m].b} \cup {pre.bk[m].a[i].id : i \in DOMAIN pre.bk[m].a}
      fresh == {x \in Rng(post.bk[m].b) \cup Rng(post.bk[m].a) : x.id \notin old}
  IN (\A i \in DOMAIN q : q[i].t = tier) /\ (\A x \in fresh : x.t = tier)

\* C10
QueueDiscipline(pre, post, e, m) ==
  LET k == Popped(e, m)
      q == Pushed(e, m)
      a == pre.mk[m]
      b == post.mk[m]
  IN /\ (k # 0 => e.op \in {"consume", "consumep"})
     /\ (q # <<>> => e.op \notin {"consume", "consumep", "settle", "close", "initoo", "sweep", "disable"})
     /\ b.eqs = a.eqs \oplus Lit(Len(q))
     /\ b.eqh = (a.eqh + k) % S.st[m].eqcap
     /\ b.eqn = Len(post.ev[m])
Tags(q) == MapSeq(q, LAMBDA v : <<v.k, v.s, v.mk, v.rel, v.id>>)

\* C15: what an instruction may touch at all
Isolated(pre, post, e) ==
  LET m == e.acc.market
      named == {e.acc[r] : r \in DOMAIN e.acc}
      oos == IF e.op \in {"consume", "consumep"} THEN Rng(e.oos) ELSE {e.acc[r] : r \in DOMAIN e.acc \cap {"oo"}}
  IN /\ \A x \in DOMAIN post.mk : post.mk[x] # pre.mk[x] => x = m
     /\ \A x \in DOMAIN post.bk : (post.bk[x] # pre.bk[x] \/ post.ev[x] # pre.ev[x]) => x = m
     /\ \A x \in DOMAIN Fld(e, "oo") : x \in oos
     /\ \A x \in DOMAIN Fld(e, "tok") : x \in named
     /\ \A x \in DOMAIN Fld(e, "lam") : e.op = "close" /\ x \in {e.acc.oo, e.acc.dest}

SlotNums(st) == [o \in DOMAIN st.oo |-> <<st.oo[o].f, st.oo[o].m, st.oo[o].own, st.oo[o].junk, UsedSlots(st.oo[o])>>]
SlotIds(st) == [o \in DOMAIN st.oo |-> st.oo[o].sl]

TokSum(pre, post, e) ==
  \A mint \in {S.ts[t].mint : t \in DOMAIN Fld(e, "tok")} :
     SumOver({t \in DOMAIN Fld(e, "tok") : S.ts[t].mint = mint}, LAMBDA t : post.tok[t] \ominus pre.tok[t]) = Zero

=============================================================================
