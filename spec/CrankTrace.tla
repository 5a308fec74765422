----------------------------- MODULE CrankTrace -----------------------------
(***************************************************************************)
(* Judges recorded histories of the command-line client against Dex.        *)
(* A line is one request made of the real client code, which talked to a    *)
(* stand-in cluster running the real program: what was asked for, what the  *)
(* client reported, and what changed on chain. A request must have the      *)
(* effect Dex gives the instruction of that name with those arguments, and  *)
(* be refused exactly when Dex refuses it, with nothing changed.            *)
(***************************************************************************)
EXTENDS Trace

\* 6960 lamports per byte, with 128 bytes of overhead
RentOf(n) == ToString(n + 128) \otimes "6960"
OOSpace == 3228

\* requests that open an account pay for exactly that account
MadeRight(e) ==
  /\ Len(e.made) =< 1
  /\ \A k \in DOMAIN e.made : e.made[k].n = e.acc.oo /\ e.made[k].space = OOSpace /\ e.made[k].lam = RentOf(OOSpace) /\ e.made[k].own = "dex"

Request(i, e, pre, post, ex) ==
  LET ok == e.res = "ok" IN
  /\ Must("C34", i, ok <=> ex.r = {}, <<IF ok THEN "accepted" ELSE "refused", e.op, e.err, ex.r>>)
  /\ Must("C34", i, (ok /\ ex.r = {}) => ex.s = post, <<"effect", e.op>>)
  /\ Must("C34", i, ~ok => pre = post, <<"effect of a refused request", e.op>>)
  /\ Must("C34", i, e.tx.ok = (IF ok THEN 1 ELSE 0) /\ e.tx.big = 0, <<"transactions", e.op, e.tx>>)
  /\ Must("C34", i, ok => MadeRight(e), <<"account made", e.op>>)

\* a crank transaction built from the current queue takes the oldest event off it, and only by the rules
Round(i, e, pre, post, ex) ==
  LET m == e.acc.market
      ok == e.res = "ok"
  IN
  /\ Must("C33", i, m \in DOMAIN S.st /\ e.acc.eq = S.st[m].eq, <<"accounts", e.acc>>)
  /\ Must("C33", i, e.tx.big = 0, <<"transaction too large", Len(e.oos)>>)
  /\ Must("C33", i, e.sorted, <<"accounts out of order">>)
  /\ Must("C33", i, ok => (ex.r = {} /\ ex.s = post), <<"effect">>)
  /\ Must("C33", i, ~ok => pre = post, <<"effect of a failed round">>)
  /\ IF e.via = "C33" THEN
       Must("C33", i, ok /\ Len(pre.ev[m]) > 0 /\ Len(post.ev[m]) < Len(pre.ev[m]), <<"no progress", e.err, Len(e.oos), Len(pre.ev[m]), Len(post.ev[m])>>)
     ELSE TRUE

\* tokens: mints, accounts, new money
Opened(e, n) == Len(e.made) = 1 /\ e.made[1].space = n /\ e.made[1].lam = RentOf(n) /\ e.made[1].own = "spl"
Genesis(e) == e.res = "ok" /\ e.tx = 1 /\ Opened(e, 82) /\ e.mint = [n |-> 1, dec |-> e.dec, auth |-> TRUE, supply |-> Zero]
OpenTok(e) == e.res = "ok" /\ e.tx = 1 /\ Opened(e, 165) /\ e.mint /\ e.own /\ e.amt = Zero
MaxU64 == "18446744073709551615"
MintOk(e) ==
  IF e.by /\ (e.s0 \oplus e.q) \preceq MaxU64
  THEN /\ e.res = "ok" /\ e.tx = 1
       /\ e.s1 = e.s0 \oplus e.q /\ e.a1 = e.a0 \oplus e.q /\ e.mint /\ e.own
       /\ IF e.fresh THEN Opened(e, 165) ELSE e.made = <<>>
  ELSE e.res = "err" /\ e.tx = 0 /\ e.s1 = e.s0 /\ (~e.fresh => e.a1 = e.a0)

Moved(e) ==
  /\ e.made = <<>>
  /\ IF e.by /\ e.q \preceq e.a0
     THEN e.res = "ok" /\ e.tx = 1 /\ e.a1 \oplus e.q = e.a0 /\ e.b1 = e.b0 \oplus e.q
     ELSE e.res = "err" /\ e.tx = 0 /\ e.a1 = e.a0 /\ e.b1 = e.b0
Bare(e) ==
  /\ e.res = "ok" /\ e.tx = 1 /\ e.there
  /\ e.made = <<[space |-> e.space, lam |-> RentOf(e.space), own |-> e.own]>>

Line(i, e, pre, post) ==
  CASE e.op \in Env -> TRUE
    [] e.op = "listed" -> Must("C34", i, e.got = e.want, <<"listed", e.got, e.want>>)
    [] e.op \in {"match", "print"} -> Must("C34", i, e.res = "ok" /\ pre = post, <<e.op, e.err>>)
    [] e.op = "genesis" -> Must("C34", i, Genesis(e), <<"genesis", e>>)
    [] e.op = "opentok" -> Must("C34", i, OpenTok(e), <<"token account", e>>)
    [] e.op = "mint" -> Must("C34", i, MintOk(e), <<"mint", e>>)
    [] e.op = "move" -> Must("C34", i, Moved(e), <<"transfer", e>>)
    [] e.op = "look" -> Must("C34", i, e.res /\ e.tx = 0, <<"account read wrongly">>)
    [] e.op = "bare" -> Must("C34", i, Bare(e), <<"account made", e>>)
    [] e.op = "shebang" -> Must("C34", i, e.res = "ok", <<"demonstration", e>>)
    [] e.op = "monitor" -> Must("C33", i, e.n = ToString(Len(pre.ev[e.m])), <<"monitor", e.n, Len(pre.ev[e.m])>>)
    [] e.op = "idle" -> Must("C33", i, e.res = "ok" /\ pre.ev[e.m] = <<>>, <<"idle", e.err>>)
    [] e.op = "odd" -> Must("C33", i, FALSE, <<"not a crank transaction">>)
    [] e.op = "loop" -> Must("C33", i, e.res = "drained" /\ pre.ev[e.m] = <<>>, <<"loop", e.res>>)
    [] OTHER ->
       IF "via" \notin DOMAIN e THEN TRUE ELSE
       \E ex \in {Expect(pre, e)} :
         IF e.via = "C34" THEN Request(i, e, pre, post, ex) ELSE Round(i, e, pre, post, ex)

CNext ==
  /\ l =< Len(T)
  /\ LET e == T[l] IN
     \E post \in {Merge(obs, e)} :
       /\ obs' = post
       /\ Line(l, e, obs, post)
  /\ exc' = exc
  /\ l' = l + 1
CSpec == Init /\ [][CNext]_vars
=============================================================================
