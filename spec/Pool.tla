-------------------------------- MODULE Pool --------------------------------
(***************************************************************************)
(* Pools of assets: initialisation, creation and redemption of pool tokens, *)
(* basket quotes, and the admin-controlled pool. The world w maps account   *)
(* names to [o: owning program, len: data length, rent: rent exempt, c:     *)
(* content]. Content is tagged by k: token account, mint, pool, blank, raw. *)
(* A request names its accounts in instruction order (ac) and who signed    *)
(* (sg). Every action yields <<w'>> or <<>> when it must be refused; a      *)
(* refused request changes nothing.                                        *)
(***************************************************************************)
EXTENDS Num, FiniteSets
CONSTANTS MaxU,        \* largest token amount (2^64 - 1)
          MaxI,        \* largest basket quantity (2^63 - 1)
          FeeOwner     \* name of the party that must hold the protocol's fee account

Million == Lit(1000000)
MinRate == Lit(150)
NMax(a, b) == IF a \preceq b THEN b ELSE a
Ceil(a, b) == (a \oplus (b \ominus One)) \oslash b

(* ---- the token program, as far as pools use it ---- *)
IsTok(w, x, m) == w[x].o = "spl" /\ w[x].c.k = "token" /\ w[x].c.mint = m
HeldBy(w, x, a) == w[x].c.own = a \/ w[x].c.del = a
MayMove(c, a, n, sg) == a \in sg /\ IF c.del = a THEN n \preceq c.damt ELSE c.own = a
Spent(c, a, n) == IF c.del # a THEN c ELSE
                  LET d == c.damt \ominus n IN [c EXCEPT !.damt = d, !.del = IF d = Zero THEN "" ELSE @]
Xfer(w, s, d, a, n, sg) ==
  LET cs == w[s].c cd == w[d].c IN
  IF cs.st # 1 \/ cd.st # 1 \/ cs.amt \prec n \/ cs.mint # cd.mint \/ ~MayMove(cs, a, n, sg) THEN <<>>
  ELSE IF s = d THEN <<w>>
  ELSE IF MaxU \prec (cd.amt \oplus n) THEN <<>>
  ELSE <<[w EXCEPT ![s].c = [Spent(cs, a, n) EXCEPT !.amt = @ \ominus n], ![d].c.amt = @ \oplus n]>>
MintTo(w, m, d, a, n, sg) ==
  IF w[d].c.st # 1 \/ w[d].c.mint # m \/ w[m].c.auth # a \/ a \notin sg \/ MaxU \prec (w[d].c.amt \oplus n) \/ MaxU \prec (w[m].c.sup \oplus n) THEN <<>>
  ELSE <<[w EXCEPT ![d].c.amt = @ \oplus n, ![m].c.sup = @ \oplus n]>>
Burn(w, x, m, a, n, sg) ==
  LET c == w[x].c IN
  IF c.st # 1 \/ c.amt \prec n \/ c.mint # m \/ ~MayMove(c, a, n, sg) THEN <<>>
  ELSE <<[w EXCEPT ![x].c = [Spent(c, a, n) EXCEPT !.amt = @ \ominus n], ![m].c.sup = @ \ominus n]>>

(* ---- fees ---- *)
RateOk(r) == MinRate \preceq r /\ r \prec Million
\* <<total, protocol, initializer, referrer>>, or <<>> when the fee cannot be represented
FeeSplit(r, n) ==
  IF ~RateOk(r) THEN <<>> ELSE
  IF n = Zero THEN <<Zero, Zero, Zero, Zero>> ELSE
  LET tot == Ceil(n \otimes r, Million)
      lqd == NMax((tot \otimes Lit(2)) \oslash Lit(5), Ceil(n, Lit(10000)))
      ref == NMin(lqd \oslash Lit(2), tot \ominus lqd)
  IN IF MaxU \prec (tot \otimes Lit(2)) THEN <<>> ELSE <<tot, lqd, (tot \ominus lqd) \ominus ref, ref>>
\* what a user with pool token account u is charged: <<protocol, initializer, referrer>>
Charged(f, st, u, ref) ==
  IF u = st.lqd THEN <<Zero, Zero, Zero>>
  ELSE <<f[2], IF u = st.ini THEN Zero ELSE f[3], IF u = ref THEN Zero ELSE f[4]>>
Sum3(c) == (c[1] \oplus c[2]) \oplus c[3]

(* ---- what every request about a live pool must present ---- *)
IsPool(w, p) == w[p].o = "prog" /\ w[p].c.k = "pool"
NA(st) == Len(st.assets)
GoodMint(w, m, a) == w[m].o = "spl" /\ w[m].c.k = "mint" /\ w[m].c.auth = a
Base(w, st, ac) ==
  /\ Len(ac) >= 3 + NA(st)
  /\ ac[2] = st.mint /\ GoodMint(w, ac[2], st.vs)
  /\ \A i \in 1..NA(st) : /\ ac[2 + i] = st.assets[i][2]
                          /\ IsTok(w, ac[2 + i], st.assets[i][1]) /\ HeldBy(w, ac[2 + i], st.vs)
  /\ ac[3 + NA(st)] = st.vs
ParamsOk(st, ac, at) == Len(ac) >= at + Len(st.params) - 1 /\ \A i \in 1..Len(st.params) : ac[at + i - 1] = st.params[i]
FeeAccOk(w, mint, lqd, ini, ref) ==
  /\ IsTok(w, lqd, mint) /\ HeldBy(w, lqd, FeeOwner)
  /\ IsTok(w, ini, mint) /\ IsTok(w, ref, mint)
\* positions of an Execute request
PTok(st) == 4 + NA(st)
PAsset(st, i) == PTok(st) + i
PUser(st) == PTok(st) + NA(st) + 1
ExecOk(w, st, ac) ==
  /\ Base(w, st, ac)
  /\ Len(ac) >= PUser(st) + 4
  /\ IsTok(w, ac[PTok(st)], st.mint)
  /\ \A i \in 1..NA(st) : IsTok(w, ac[PAsset(st, i)], st.assets[i][1])
  /\ ac[PUser(st) + 1] = st.lqd /\ ac[PUser(st) + 2] = st.ini
  /\ FeeAccOk(w, st.mint, st.lqd, st.ini, ac[PUser(st) + 3])
  /\ ac[PUser(st) + 4] = "spl"
  /\ ParamsOk(st, ac, PUser(st) + 5)

(* ---- baskets ---- *)
\* proportional share of every asset, <<>> if there is none
Basket(w, st, n, up) ==
  LET s == w[st.mint].c.sup
      q == [i \in 1..NA(st) |-> LET v == w[st.assets[i][2]].c.amt \otimes n IN IF up THEN Ceil(v, s) ELSE v \oslash s]
  IN IF s = Zero THEN <<>> ELSE IF \E i \in 1..NA(st) : MaxI \prec q[i] THEN <<>> ELSE <<q>>

RECURSIVE Each(_, _, _)
\* apply the moves in order, all or nothing; a move is <<"x", from, to, by, n>>, <<"m", mint, to, by, n>> or <<"b", from, mint, by, n>>
Each(w, ms, sg) ==
  IF ms = <<>> THEN <<w>> ELSE
  LET h == Head(ms)
      r == CASE h[1] = "x" -> Xfer(w, h[2], h[3], h[4], h[5], sg)
             [] h[1] = "m" -> MintTo(w, h[2], h[3], h[4], h[5], sg)
             [] h[1] = "b" -> Burn(w, h[2], h[3], h[4], h[5], sg)
  IN IF r = <<>> THEN <<>> ELSE Each(r[1], Tail(ms), sg)
NZ(ms) == SelectSeq(ms, LAMBDA h : h[5] # Zero)

Creation(w, st, n, ac, sg) ==
  LET u == ac[PTok(st)] ref == ac[PUser(st) + 3]
      f == FeeSplit(st.rate, n) b == Basket(w, st, n, TRUE)
  IN IF f = <<>> \/ b = <<>> \/ st.paused THEN <<>> ELSE
     LET c == Charged(f, st, u, ref)
         r == Each(w, [i \in 1..NA(st) |-> <<"x", ac[PAsset(st, i)], st.assets[i][2], ac[PUser(st)], b[1][i]>>], sg)
     IN IF r = <<>> THEN <<>> ELSE
        Each(r[1], NZ(<< <<"m", st.mint, st.lqd, st.vs, c[1]>>, <<"m", st.mint, st.ini, st.vs, c[2]>>, <<"m", st.mint, ref, st.vs, c[3]>>,
                         <<"m", st.mint, u, st.vs, n \ominus Sum3(c)>> >>), sg \cup {st.vs})
Redemption(w, st, n, ac, sg) ==
  LET u == ac[PTok(st)] ref == ac[PUser(st) + 3] a == ac[PUser(st)] f == FeeSplit(st.rate, n) IN
  IF f = <<>> \/ st.paused THEN <<>> ELSE
  LET c == Charged(f, st, u, ref)
      net == n \ominus Sum3(c)
      b == Basket(w, st, net, FALSE)
  IN IF b = <<>> THEN <<>> ELSE
     LET r == Each(w, NZ(<< <<"x", u, st.lqd, a, c[1]>>, <<"x", u, st.ini, a, c[2]>>, <<"x", u, ref, a, c[3]>> >>) \o << <<"b", u, st.mint, a, net>> >>, sg)
     IN IF r = <<>> THEN <<>> ELSE
        Each(r[1], [i \in 1..NA(st) |-> <<"x", st.assets[i][2], ac[PAsset(st, i)], st.vs, b[1][i]>>], sg \cup {st.vs})

Exec(w, r) ==
  IF r.ac = <<>> THEN <<>> ELSE IF ~IsPool(w, r.ac[1]) THEN <<>> ELSE
  LET st == w[r.ac[1]].c IN
  IF ~ExecOk(w, st, r.ac) THEN <<>> ELSE
  CASE r.act = "create" -> Creation(w, st, r.n, r.ac, r.sg)
    [] r.act = "redeem" -> Redemption(w, st, r.n, r.ac, r.sg)
    [] OTHER -> <<>>

\* a quote: <<basket>> or <<>>
Quote(w, r) ==
  IF r.ac = <<>> THEN <<>> ELSE IF ~IsPool(w, r.ac[1]) THEN <<>> ELSE
  LET st == w[r.ac[1]].c at == 4 + NA(st) IN
  IF ~Base(w, st, r.ac) \/ Len(r.ac) < at + 1 THEN <<>> ELSE
  IF w[r.ac[at]].o # r.ac[at + 1] \/ ~ParamsOk(st, r.ac, at + 2) \/ st.paused \/ r.act \notin {"create", "redeem"} THEN <<>> ELSE
  Basket(w, st, r.n, r.act = "create")

(* ---- initialisation ---- *)
Size(st) == 8 + 32 + 4 + 64 * NA(st) + 32 + 1 + 4 + 33 * Len(st.params) + 4 + st.nlen + 32 + 32 + 4 + (IF st.admin = "" THEN 1 ELSE 33) + 4 + (IF st.admin = "" THEN 0 ELSE 9)
Initialize(w, r) ==
  LET k == r.k ac == r.ac IN
  IF Len(ac) < 6 + k THEN <<>> ELSE
  LET p == ac[1] m == ac[2] vs == ac[3 + k] lqd == ac[4 + k] ini == ac[5 + k] custom == SubSeq(ac, 7 + k, Len(ac))
      st == [k |-> "pool", mint |-> m, assets |-> [i \in 1..k |-> <<IF w[ac[2 + i]].c.k = "token" THEN w[ac[2 + i]].c.mint ELSE "", ac[2 + i]>>],
             vs |-> vs, nonce |-> r.nonce, lqd |-> lqd, ini |-> ini, rate |-> r.rate, params |-> IF r.kind = "param" THEN custom ELSE <<>>,
             name |-> r.name, nlen |-> r.nlen, admin |-> IF r.kind = "admin" /\ custom # <<>> THEN custom[1] ELSE "", paused |-> FALSE]
      c == w[lqd].c
  IN IF /\ w[p].o = "prog" /\ w[p].c.k = "blank" /\ w[p].rent
        /\ GoodMint(w, m, vs) /\ w[m].rent
        /\ \A i \in 1..k : w[ac[2 + i]].c.k = "token" /\ w[ac[2 + i]].o = "spl" /\ w[ac[2 + i]].rent /\ HeldBy(w, ac[2 + i], vs)
        /\ FeeAccOk(w, m, lqd, ini, lqd) /\ w[lqd].rent /\ w[ini].rent
        /\ c.own = FeeOwner /\ c.del = "" /\ c.close \in {"", vs}
        /\ ac[6 + k] = "rent"
        /\ r.vs = vs
        /\ RateOk(r.rate)
        /\ \A i, j \in 1..k : i # j => ac[2 + i] # ac[2 + j]     \* a vault counted twice would be paid out twice
        /\ (r.kind = "admin" => custom # <<>>)
        /\ w[p].len >= Size(st)
     THEN <<[w EXCEPT ![p].c = st]>> ELSE <<>>

(* ---- the admin-controlled pool ---- *)
Admin(w, r) ==
  LET ac == r.ac IN
  IF Len(ac) < 2 THEN <<>> ELSE
  IF ~IsPool(w, ac[1]) \/ r.kind # "admin" THEN <<>> ELSE
  LET p == ac[1] st == w[p].c
      put(s) == IF Size(s) > w[p].len THEN <<>> ELSE <<[w EXCEPT ![p].c = s]>>
      tok(i) == Len(ac) >= i /\ w[ac[i]].o = "spl" /\ w[ac[i]].c.k = "token"
      vaults == {st.assets[i][2] : i \in 1..NA(st)}
  IN IF st.admin = "" \/ ac[2] # st.admin \/ ac[2] \notin r.sg THEN <<>> ELSE
  CASE r.act = "pause" -> put([st EXCEPT !.paused = TRUE])
    [] r.act = "unpause" ->
         IF Len(ac) >= 2 + NA(st) /\ \A i \in 1..NA(st) : ac[2 + i] = st.assets[i][2] /\ tok(2 + i) /\ (w[ac[2 + i]].c.del = "" \/ w[ac[2 + i]].c.damt = Zero)
         THEN put([st EXCEPT !.paused = FALSE]) ELSE <<>>
    [] r.act = "approve" ->
         IF Len(ac) < 6 THEN <<>> ELSE
         IF ac[3] \in vaults /\ ac[5] = st.vs /\ ac[6] = "spl" /\ tok(3) /\ w[ac[3]].c.own = st.vs /\ w[ac[3]].c.st = 1
         THEN <<[w EXCEPT ![p].c.paused = TRUE, ![ac[3]].c.del = ac[4], ![ac[3]].c.damt = r.n]>> ELSE <<>>
    [] r.act = "add" ->
         IF tok(3) /\ ac[3] \notin vaults /\ w[ac[3]].c.mint \notin {st.assets[i][1] : i \in 1..NA(st)} /\ w[ac[3]].c.own = st.vs
            /\ (st.paused \/ w[ac[3]].c.del = "" \/ w[ac[3]].c.damt = Zero)   \* resuming looks at every vault again
         THEN put([st EXCEPT !.assets = Append(@, <<w[ac[3]].c.mint, ac[3]>>)]) ELSE <<>>
    [] r.act = "remove" ->
         IF tok(3) /\ ac[3] \in vaults /\ w[ac[3]].c.amt = Zero
         THEN put([st EXCEPT !.assets = SelectSeq(@, LAMBDA a : a[2] # ac[3])]) ELSE <<>>
    [] r.act = "fee" -> IF RateOk(r.n) THEN put([st EXCEPT !.rate = r.n]) ELSE <<>>
    [] r.act = "admin" -> IF Len(ac) >= 3 /\ ac[3] \in r.sg THEN put([st EXCEPT !.admin = ac[3]]) ELSE <<>>
    [] OTHER -> <<>>

\* a vault somebody may draw on, offered as a new asset, that would be in order otherwise: the world if it is taken all the same
AddsDelegated(w, r) == r.act = "add" /\ Len(r.ac) >= 3 /\ w[r.ac[3]].c.k = "token" /\ w[r.ac[3]].c.del # "" /\ w[r.ac[3]].c.damt # Zero
TakenAnyway(w, r) ==
  IF ~AddsDelegated(w, r) THEN <<>> ELSE
  LET x == Admin([w EXCEPT ![r.ac[3]].c.del = ""], r) IN IF x = <<>> THEN <<>> ELSE <<[x[1] EXCEPT ![r.ac[3]] = w[r.ac[3]]]>>

(* ---- what the pool is for ---- *)
Sup(w, st) == w[st.mint].c.sup
Held(w, st, i) == w[st.assets[i][2]].c.amt
\* no request of the pool lowers the assets behind an outstanding pool token
NoDilution(w, v, p) ==
  IsPool(w, p) => LET st == w[p].c IN
    \A i \in 1..NA(st) : (Held(w, st, i) \otimes Sup(v, st)) \preceq (Held(v, st, i) \otimes Sup(w, st))
\* while trading is open nobody else can draw on the assets
Guarded(w, p) == IsPool(w, p) => LET st == w[p].c IN
  st.admin # "" /\ ~st.paused => \A i \in 1..NA(st) : LET c == w[st.assets[i][2]].c IN c.del \in {"", st.vs} \/ c.damt = Zero
=============================================================================
