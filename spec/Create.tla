------------------------------- MODULE Create -------------------------------
(***************************************************************************)
(* Creation of markets out of accounts. The world is a function from        *)
(* account names to [o: owning program, len: data length, rent: whether it  *)
(* is rent exempt, c: content]; content is a record tagged by field k.      *)
(* A creation request a is [ac: account names in instruction order, vs:     *)
(* the authority derived from market and nonce ("" if there is none), and   *)
(* the parameters clot, plot, fee, nonce, dust].                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Blank == [k |-> "blank"]
HdrPad == 12                                   \* head and tail padding of every exchange account
RqCap(len) == (len - HdrPad - 32) \div 80
EqCap(len) == (len - HdrPad - 32) \div 88
Nodes(len) == (len - HdrPad - 8 - 32) \div 72
MinEvents == 128
MinNodes == 201
LenV1 == 388
LenV2 == 1476
TokenLen == 165
MintLen == 82

Mk(a) == a.ac[1]
Rq(a) == a.ac[2]
Eq(a) == a.ac[3]
Bd(a) == a.ac[4]
As(a) == a.ac[5]
Cv(a) == a.ac[6]
Pv(a) == a.ac[7]
Cm(a) == a.ac[8]
Pm(a) == a.ac[9]
Auth(a, i) == IF Len(a.ac) >= 10 + i THEN a.ac[10 + i] ELSE ""
Perm(a) == Len(a.ac) > 10

Fresh(w, x) == w[x].o = "dex" /\ w[x].rent /\ w[x].len % 8 = 4 /\ w[x].len >= 20 /\ w[x].c = Blank
GoodMint(w, m) == w[m].o = "spl" /\ w[m].rent /\ w[m].len = MintLen /\ w[m].c.k = "mint" /\ w[m].c.st = 1
\* a token account under the sole control of vs
GoodVault(w, x, m, vs) ==
  /\ w[x].o = "spl" /\ w[x].rent /\ w[x].len = TokenLen /\ w[x].c.k = "token"
  /\ w[x].c.st = 1 /\ w[x].c.mint = m /\ w[x].c.own = vs /\ ~w[x].c.del /\ ~w[x].c.close

Creatable(w, a) ==
  /\ Len(a.ac) \in 10..13
  /\ a.vs # ""
  /\ \A i \in 1..5 : Fresh(w, a.ac[i])
  /\ Cardinality({a.ac[i] : i \in 1..5}) = 5
  /\ w[Mk(a)].len = IF Perm(a) THEN LenV2 ELSE LenV1
  /\ RqCap(w[Rq(a)].len) >= 1
  /\ EqCap(w[Eq(a)].len) >= MinEvents
  /\ Nodes(w[Bd(a)].len) >= MinNodes /\ Nodes(w[As(a)].len) >= MinNodes
  /\ GoodMint(w, Cm(a)) /\ GoodMint(w, Pm(a))
  /\ GoodVault(w, Cv(a), Cm(a), a.vs) /\ GoodVault(w, Pv(a), Pm(a), a.vs)

MarketOf(a) ==
  [k |-> "market", own |-> Mk(a), rq |-> Rq(a), eq |-> Eq(a), bids |-> Bd(a), asks |-> As(a), cv |-> Cv(a), pv |-> Pv(a), cm |-> Cm(a), pm |-> Pm(a),
   clot |-> a.clot, plot |-> a.plot, fee |-> a.fee, nonce |-> a.nonce, dust |-> a.dust,
   perm |-> Perm(a), crank |-> Len(a.ac) = 13, dis |-> FALSE,
   ooa |-> Auth(a, 1), pra |-> Auth(a, 2), cra |-> Auth(a, 3), zero |-> TRUE]
EmptyOf(kind) == [k |-> kind, zero |-> TRUE]   \* initialised, of this kind, everything else zero

After(w, a) ==
  IF ~Creatable(w, a) THEN w ELSE
  [w EXCEPT ![Mk(a)].c = MarketOf(a), ![Rq(a)].c = EmptyOf("rq"), ![Eq(a)].c = EmptyOf("eq"), ![Bd(a)].c = EmptyOf("bids"), ![As(a)].c = EmptyOf("asks")]

\* what creation is for: every market has its own five accounts of the right kinds, and vaults nobody else controls
Markets(w) == {x \in DOMAIN w : w[x].c.k = "market"}
Parts(w, m) == {m, w[m].c.rq, w[m].c.eq, w[m].c.bids, w[m].c.asks}
Sound(w) ==
  \A m \in Markets(w) :
    /\ w[m].c.own = m
    /\ Cardinality(Parts(w, m)) = 5
    /\ w[w[m].c.rq].c.k = "rq" /\ w[w[m].c.eq].c.k = "eq" /\ w[w[m].c.bids].c.k = "bids" /\ w[w[m].c.asks].c.k = "asks"
    /\ \A x \in Parts(w, m) : w[x].o = "dex" /\ w[x].rent
    /\ \A x \in {w[m].c.cv, w[m].c.pv} : w[x].o = "spl" /\ w[x].c.st = 1 /\ ~w[x].c.del /\ ~w[x].c.close
    /\ \A n \in Markets(w) \ {m} : Parts(w, m) \cap Parts(w, n) = {} /\ {w[m].c.cv, w[m].c.pv} \cap {w[n].c.cv, w[n].c.pv} = {}
=============================================================================
