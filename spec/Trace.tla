------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Judges a recorded history of the real program against Dex.               *)
(* Every line carries one instruction, its outcome and what it changed. The *)
(* specification is re-synchronised with the observed state after each      *)
(* line, computes what that instruction must do from there, and reports     *)
(*      <<"BAD", property, line, why>>                                      *)
(* for every property the observed step or the reached state violates.      *)
(***************************************************************************)
EXTENDS Rules, Json, IOUtils

T == ndJsonDeserialize(IOEnv.TRACE)
TraceS == [st |-> T[1].st, ts |-> T[1].ts, poor |-> T[1].poor]
AllProps == {"C0" \o ToString(i) : i \in 1..9} \cup {"C" \o ToString(i) : i \in 10..34}
Wanted == {p \in AllProps : ("P_" \o p) \in DOMAIN IOEnv}
W(p) == p \in Wanted

TFPOne == "18446744073709551616"
TFeeDen == "100000"
TFeeK == <<"40", "39", "38", "36", "34", "32", "30", "10">>
TSrmSteps == <<"100000000", "1000000000", "10000000000", "100000000000", "1000000000000">>
TNSlots == 128

VARIABLES l, obs, exc
vars == <<l, obs, exc>>

-----------------------------------------------------------------------------
Merge(o, e) ==
  [mk |-> Fld(e, "mk") @@ o.mk,
   bk |-> IF "bk" \notin DOMAIN e THEN o.bk ELSE
          [m \in DOMAIN o.bk |-> IF m \notin DOMAIN e.bk THEN o.bk[m] ELSE
             [b |-> IF "b" \in DOMAIN e.bk[m] THEN e.bk[m].b ELSE o.bk[m].b,
              a |-> IF "a" \in DOMAIN e.bk[m] THEN e.bk[m].a ELSE o.bk[m].a]],
   ev |-> IF "ev" \notin DOMAIN e THEN o.ev ELSE
          [m \in DOMAIN o.ev |-> IF m \notin DOMAIN e.ev THEN o.ev[m] ELSE
             SubSeq(o.ev[m], e.ev[m].pop + 1, Len(o.ev[m])) \o e.ev[m].push],
   oo |-> Fld(e, "oo") @@ o.oo,
   tok |-> Fld(e, "tok") @@ o.tok,
   lam |-> Fld(e, "lam") @@ o.lam]

StateOf(e) ==
  [mk |-> e.mk, bk |-> e.bk, ev |-> [m \in DOMAIN e.ev |-> e.ev[m].push], oo |-> e.oo, tok |-> e.tok, lam |-> e.lam]
Start == StateOf(T[1])
ExcOf(st) == [m \in DOMAIN S.st |-> [c |-> CoinExcess(st, m), p |-> PcExcess(st, m)]]

Bad(p, i, why) == PrintT(<<"BAD", p, i, why>>)
Must(p, i, cond, why) == IF W(p) THEN (IF cond THEN TRUE ELSE Bad(p, i, why)) ELSE TRUE
RECURSIVE BadAll(_, _, _)
BadAll(P, i, why) == IF P = {} THEN TRUE ELSE LET p == CHOOSE p \in P : TRUE IN Bad(p, i, why) /\ BadAll(P \ {p}, i, why)

-----------------------------------------------------------------------------
\* the instruction's expected outcome; the free choices of a crank with unsorted accounts and of a prune are the observed ones
Expect(pre, e) ==
  CASE e.op \in {"consume", "consumep"} ->
         LET r == CrankReasons(pre, e) IN
         IF r # {} THEN Refuse(pre, r) ELSE
         LET m == e.acc.market
             reach == CrankReach(pre, m, e)
             k == Popped(e, m)
         IN Consume(pre, e, IF e.sorted THEN reach ELSE IF k =< reach THEN k ELSE reach)
    [] e.op = "prune" ->
         LET r == PruneReasons(pre, e) IN
         IF r # {} THEN Refuse(pre, r) ELSE
         LET m == e.acc.market
             q == Pushed(e, m)
             R == [i \in DOMAIN q |-> [s |-> q[i].s, id |-> q[i].id]]
             own == OwnOrders(pre, m, e.acc.oo)
             most == IF e.lim < Cardinality(own) THEN e.lim ELSE Cardinality(own)
         IN IF e.res = "ok" THEN Prune(pre, e, R)
            ELSE IF ~Fits(pre, m, most) THEN Refuse(pre, {"eqfull"})
            ELSE Accept(pre)
    [] OTHER -> Apply(pre, e)

\* instruction -> the property that says what it does
OpProp(op) ==
  CASE op = "new" -> {"C05"} [] op = "replace" -> {"C21"} [] op = "take" -> {"C22"}
    [] op \in {"cancel", "cancelc", "cancelb"} -> {"C12"} [] op = "settle" -> {"C13"}
    [] op \in {"consume", "consumep"} -> {"C11"} [] op = "disable" -> {"C17"} [] op = "sweep" -> {"C23"}
    [] op \in {"close", "initoo"} -> {"C19"} [] op = "prune" -> {"C25"} [] OTHER -> {}
\* reason to refuse -> the property that demands the refusal
ReasonProp(r, op) ==
  CASE r = "sig" -> {"C14"} \cup (IF op \in {"prune", "consumep", "initoo"} THEN {"C16"} ELSE {})
    [] r = "owner" -> {"C14", "C15"}
    [] r = "payer" -> {"C14"}
    [] r = "admin" -> {"C14"} \cup OpProp(op)
    [] r = "sub" -> {"C15"}
    [] r = "perm" -> {"C16"}
    [] r = "dis" -> {"C17"}
    [] r = "disc" -> {"C09"}
    [] r \in {"rent", "oostate", "slots", "notempty"} -> {"C19"}
    [] r = "eqfull" -> {"C10"}
    [] r = "selftrade" -> {"C07"}
    [] r = "expired" -> {"C26"}
    [] OTHER -> OpProp(op)
WronglyAccepted(R, e) ==
  LET op == e.op IN
  UNION {ReasonProp(r, op) : r \in R}
  \cup (IF "sub" \in R /\ op \in PermOps /\ e.acc.market \notin DOMAIN S.st THEN {"C16"} ELSE {}) \cup (IF op \in {"replace", "prune", "sweep", "disable", "close"} THEN OpProp(op) ELSE {})

OrdersOf(e) == CASE e.op \in {"new"} -> <<e.o>> [] e.op = "replace" -> e.os [] OTHER -> <<>>
WronglyRefused(pre, e, ex) ==
  LET m == e.acc.market IN
  OpProp(e.op)
  \cup (IF Disabled(pre, m) THEN {"C17"} ELSE {})
  \cup (IF e.op \in PermOps THEN {"C16"} ELSE {})
  \cup (IF \E i \in DOMAIN OrdersOf(e) : OrdersOf(e)[i].ts # MaxTs THEN {"C26"} ELSE {})
  \cup (IF "disc" \in DOMAIN e.acc THEN {"C09"} ELSE {})
  \cup (IF Len(ex.s.ev[m]) + 3 > S.st[m].eqcap \/ (Len(ex.s.ev[m]) > Len(pre.ev[m]) /\ ex.s.mk[m].eqh + Len(ex.s.ev[m]) >= S.st[m].eqcap) THEN {"C10"} ELSE {})
  \cup (IF e.op \in MatchOps /\ (Len(pre.bk[m].b) >= S.st[m].cap \/ Len(pre.bk[m].a) >= S.st[m].cap) THEN {"C06"} ELSE {})
  \cup (IF e.op \in MatchOps THEN {"C03"} ELSE {})
  \cup (IF "oo" \in DOMAIN e.acc /\ e.op \in {"new", "replace"} /\ (Len(ex.s.oo[e.acc.oo].sl) + 1 >= NSlots) THEN {"C19"} ELSE {})
  \cup (IF ex.selft THEN {"C07"} ELSE {})
  \cup (IF e.op \in ExitOps THEN {"C24"} ELSE {})

-----------------------------------------------------------------------------
-----------------------------------------------------------------------------
\* invariants of the state reached; only what the line could have changed is re-examined
TouchedM(e) == {m \in DOMAIN S.st : m \in DOMAIN Fld(e, "mk") \/ m \in DOMAIN Fld(e, "bk") \/ m \in DOMAIN Fld(e, "ev")}
              \cup {m \in DOMAIN S.st : {S.st[m].cv, S.st[m].pv} \cap DOMAIN Fld(e, "tok") # {}}
StateChecks(i, e, post, exc1) ==
  LET oos == DOMAIN Fld(e, "oo")
      ms == TouchedM(e) \cup {post.oo[o].m : o \in {o \in oos : post.oo[o].f = "live"}}
  IN
  \A m \in ms \cap DOMAIN S.st :
     /\ Must("C01", i, CoinExcess(post, m) = exc1[m].c /\ PcExcess(post, m) = exc1[m].p, <<"vault", m>>)
     /\ Must("C01", i, DepositsMatch(post, m), <<"deposits", m>>)
     /\ Must("C02", i, \A o \in BoundOO(post, m) : LockedMatch(post, o), <<"locked", m>>)
     /\ Must("C06", i, BookSound(post, m) /\ post.mk[m].bok = "ok", <<"book", m>>)
     /\ Must("C10", i, RingSound(post, m), <<"ring", m>>)
     /\ Must("C20", i, IdsSound(post, m), <<"ids", m>>)
     /\ Must("C20", i, \A o \in oos : post.oo[o].f = "live" => ~post.oo[o].junk, <<"free slot not blank", m>>)
     /\ Must("C24", i, RebatesBacked(post, m), <<"rebates", m>>)
     /\ Must("C19", i, \A o \in oos : SlotsSound(post, o), <<"slots", m>>)
     /\ Must("C24", i, \A o \in BoundOO(post, m) : NoLostSlot(post, o), <<"lostslot", m>>)

-----------------------------------------------------------------------------
Checks(i, e, pre, post, ex) ==
  LET op == e.op
      ok == e.res = "ok"
  IN
  CASE ok /\ ex.r # {} -> BadAll(WronglyAccepted(ex.r, e) \cap Wanted, i, <<"accepted", op, ex.r>>)
    [] ~ok /\ ex.r = {} -> BadAll(WronglyRefused(pre, e, ex) \cap Wanted, i, <<"refused", op, e.err>>)
    [] ~ok /\ ex.r # {} -> TRUE
    [] OTHER ->
       LET m == e.acc.market
           x == ex.s
           same == x = post
           q == Pushed(e, m)
           xq == IF op \in {"consume", "consumep"} THEN <<>> ELSE SubSeq(x.ev[m], Len(pre.ev[m]) + 1, Len(x.ev[m]))
           tier == IF op \in MatchOps THEN TierOf(pre, m, e) ELSE 0
       IN
       /\ IF same \/ "DEBUG" \notin DOMAIN IOEnv THEN TRUE ELSE
            \A k \in DOMAIN x : \A y \in DOMAIN x[k] :
              IF x[k][y] = post[k][y] THEN TRUE ELSE PrintT(<<"DIFF", i, k, y, "specified", x[k][y], "observed", post[k][y]>>)
       /\ IF same THEN TRUE ELSE
          /\ BadAll((OpProp(op) \cap Wanted) \ {"C05"}, i, <<"effect", op>>)
          /\ Must("C05", i, op \notin {"new", "replace"} \/ (x.oo[e.acc.oo] = post.oo[e.acc.oo] /\ x.tok = post.tok /\ x.bk = post.bk), <<"effect", op>>)
          /\ Must("C03", i, op \notin MatchOps \/ FillsAsSpecified(q, xq), <<"fills", op>>)
          /\ Must("C04", i, op # "replace" \/ ReplaceWithin(x, post, e, q, xq), <<"limits", op>>)
          /\ Must("C06", i, x.bk = post.bk, <<"orders", op>>)
          /\ Must("C07", i, ~(op \in MatchOps /\ (ex.selft \/ (op # "take" /\ \E v \in Rng(Makers(q)) : v.own = e.acc.oo))), <<"selftrade", op>>)
          /\ Must("C10", i, Tags(q) = Tags(xq), <<"events", op>>)
          /\ Must("C17", i, ~Disabled(pre, m) /\ op # "disable", <<"disabled", op>>)
          /\ Must("C16", i, ~(op \in PermOps /\ S.st[m].perm), <<"permissioned", op>>)
          /\ Must("C19", i, SlotNums(x) = SlotNums(post), <<"slots", op>>)
          /\ Must("C20", i, SlotIds(x) = SlotIds(post) /\ \A k \in DOMAIN x.mk : x.mk[k].seq = post.mk[k].seq, <<"ids", op>>)
          /\ Must("C09", i, ~(op = "take") \/ ~(S.st[m].stable \/ "disc" \in DOMAIN e.acc) \/ x.mk[m].fees = post.mk[m].fees, <<"tierfee", op>>)
          /\ Must("C08", i, op \notin {"consume", "consumep"} \/ \A o \in DOMAIN post.oo : x.oo[o].rb = post.oo[o].rb, <<"refshare", op>>)
       /\ Must("C01", i, TokSum(pre, post, e), <<"tokens", op>>)
       /\ Must("C03", i, op \notin {"new", "take"} \/ PriceTime(pre, post, e, m), <<"pricetime", op>>)
       /\ Must("C04", i, op \notin {"new", "take"} \/ WithinLimits(pre, post, e, m), <<"limits", op>>)
       /\ Must("C08", i, op \notin MatchOps \/ FeesExact(pre, post, e, m, tier), <<"fees", op>>)
       /\ Must("C09", i, op \notin MatchOps \/ TierRecorded(pre, post, e, m, tier), <<"tier", op>>)
       /\ Must("C10", i, QueueDiscipline(pre, post, e, m), <<"queue", op>>)
       /\ Must("C15", i, Isolated(pre, post, e), <<"isolation", op>>)

Drained(st, x) ==
  /\ \A o \in DOMAIN st.oo : st.oo[o].f # "live"
  /\ \A m \in DOMAIN S.st :
       /\ st.bk[m].b = <<>> /\ st.bk[m].a = <<>> /\ st.ev[m] = <<>>
       /\ st.mk[m].cd = Zero /\ st.mk[m].pd = Zero /\ st.mk[m].rr = Zero
       /\ st.tok[S.st[m].cv] = x[m].c
       /\ st.tok[S.st[m].pv] = x[m].p \oplus (IF Disabled(st, m) THEN st.mk[m].fees ELSE Zero)

FeeLine(i, e) ==
  /\ Must("C08", i, e.fee = TakerFee(e.t, e.q), <<"fee", e.t, e.q, e.fee>>)
  /\ Must("C08", i, e.spend = Spendable(e.t, e.q), <<"spendable", e.t, e.q, e.spend>>)
  /\ Must("C08", i, e.maker = Zero, <<"maker", e.t, e.q>>)

Env == {"donate", "recreate", "drained"}

Init == l = 2 /\ obs = Start /\ exc = ExcOf(Start)

Next ==
  /\ l =< Len(T)
  /\ LET e == T[l] IN
     IF e.op = "fee" THEN FeeLine(l, e) /\ UNCHANGED <<obs, exc>>
     ELSE IF e.op \in {"base", "reset"} THEN      \* the harness put back a saved state of the whole world
       \E st \in {StateOf(IF e.op = "base" THEN e ELSE T[e.at])} : obs' = st /\ exc' = ExcOf(st)
     ELSE
     \E post \in {Merge(obs, e)} :          \* singletons: evaluated once
     /\ obs' = post
     /\ IF e.op \in Env THEN
          /\ exc' = IF e.op = "donate" THEN ExcOf(post) ELSE exc
          /\ IF e.op = "drained" THEN Must("C24", l, Drained(post, exc), <<"drained">>) ELSE TRUE
        ELSE
          \E ex \in {Expect(obs, e)} :
          \E exc1 \in {[m \in DOMAIN exc |->
                        IF m \in TouchedM(e) /\ ex.r = {}
                        THEN [c |-> exc[m].c \oplus (CoinExcess(ex.s, m) \ominus CoinExcess(obs, m)),
                              p |-> exc[m].p \oplus (PcExcess(ex.s, m) \ominus PcExcess(obs, m))]
                        ELSE exc[m]]} :
             /\ exc' = exc1
             /\ Checks(l, e, obs, post, ex)
             /\ IF e.res = "ok" THEN StateChecks(l, e, post, exc1) ELSE TRUE
  /\ l' = l + 1

Spec == Init /\ [][Next]_vars
\* the whole trace was consumed
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter, Len(T)>>)
=============================================================================
