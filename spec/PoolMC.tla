------------------------------- MODULE PoolMC -------------------------------
(***************************************************************************)
(* Bounded exploration of one pool over two assets, three holders and an    *)
(* administrator: creations, redemptions, donations, and (for the           *)
(* administered pool) every administrative request, also by strangers, and  *)
(* a delegate that takes what it may. Small integer amounts. For every      *)
(* distinct state one history is printed, followed by every request that is *)
(* refused there, to be replayed on the real code.                          *)
(***************************************************************************)
EXTENDS Pool, TLC
CONSTANTS Kind, Rates, Amounts, MaxSteps
Vaults == IF Kind = "plain" THEN {<<0, 1>>, <<30, 7>>, <<500, 0>>} ELSE {<<0, 7>>}
Holders == IF Kind = "plain" THEN {<<20, 0, 0>>, <<10, 3, 0>>, <<0, 0, 0>>} ELSE {<<10, 3, 0>>}
XMaxU == 1000000
VARIABLES w, hist, start
vars == <<w, hist, start>>

Wallets == {"U1", "U2", "U3", "ADM", "ADM2", "DLG", "X", "vs", "prog", "spl", "rent", "FEEOWNER"}
Assets == <<"A1", "A2">>
Vs == <<"V1", "V2">>
\* three holders, the initializer of the pool and the protocol's own party, with their pool token and asset accounts
UP == <<"U1.p", "U2.p", "U3.p", "I", "L">>
Us == <<"U1", "U2", "U3", "X", "FEEOWNER">>
UA == <<<<"U1.1", "U1.2">>, <<"U2.1", "U2.2">>, <<"U3.1", "U3.2">>, <<"X.1", "X.2">>, <<"FEEOWNER.1", "FEEOWNER.2">>>>
Tok(m, o, n) == [o |-> "spl", len |-> 165, rent |-> TRUE, c |-> [k |-> "token", st |-> 1, mint |-> m, own |-> o, del |-> "", damt |-> 0, amt |-> n, close |-> ""]]
Mnt(a, n) == [o |-> "spl", len |-> 82, rent |-> TRUE, c |-> [k |-> "mint", auth |-> a, sup |-> n]]
TokNames == {"V1", "V2"} \cup {UP[j] : j \in 1..5} \cup {UA[j][i] : j \in 1..5, i \in 1..2}
World(v, h) ==
  [n \in Wallets \cup TokNames \cup {"PM", "P"} |->
    CASE n \in Wallets -> [o |-> "sys", len |-> 0, rent |-> TRUE, c |-> [k |-> "raw"]]
      [] n = "P" -> [o |-> "prog", len |-> 1200, rent |-> TRUE, c |-> [k |-> "blank"]]
      [] n = "PM" -> Mnt("vs", h[1] + h[2] + h[3])
      [] n = "L" -> Tok("PM", "FEEOWNER", 0) [] n = "I" -> Tok("PM", "X", 0)
      [] n = "V1" -> Tok("A1", "vs", v[1]) [] n = "V2" -> Tok("A2", "vs", v[2])
      [] OTHER -> IF \E j \in 1..3 : n = UP[j] THEN LET j == CHOOSE j \in 1..3 : n = UP[j] IN Tok("PM", Us[j], h[j])
                  ELSE LET j == CHOOSE j \in 1..5 : \E i \in 1..2 : n = UA[j][i] i == CHOOSE i \in 1..2 : n = UA[j][i] IN Tok(Assets[i], Us[j], 1000)]

Blankreq == [kind |-> Kind, sg |-> {}, n |-> 0, act |-> "", ac |-> <<>>, k |-> 0, nonce |-> 0, rate |-> 0, vs |-> "vs", name |-> "mc", nlen |-> 2]
InitReq(r) == [Blankreq EXCEPT !.k = 2, !.rate = r, !.ac = <<"P", "PM", "V1", "V2", "vs", "L", "I", "rent">> \o (IF Kind = "admin" THEN <<"ADM">> ELSE <<>>)]
St == w["P"].c
Head2 == <<"P", "PM">> \o [i \in 1..NA(St) |-> St.assets[i][2]] \o <<"vs">>
AssetOf(i) == IF St.assets[i][1] = "A1" THEN 1 ELSE 2
ExecReq(act, n, j, ref) ==
  [Blankreq EXCEPT !.act = act, !.n = n, !.sg = {Us[j]},
                   !.ac = Head2 \o <<UP[j]>> \o [i \in 1..NA(St) |-> UA[j][AssetOf(i)]] \o <<Us[j], "L", "I", ref, "spl">>]
AdmReq(act, by, n, rest) ==
  [Blankreq EXCEPT !.act = act, !.n = n, !.sg = {by} \cup (IF act = "admin" THEN {"ADM2"} ELSE {}), !.ac = <<"P", by>> \o rest]
VRest == [i \in 1..NA(St) |-> St.assets[i][2]]

N(n) == ToString(n)
\* <<script text, successor or <<>>, dilution counts>>
Execs == {<<a \o " " \o N(n) \o " " \o Us[j] \o " " \o f, Exec(w, ExecReq(a, n, j, f)), TRUE>> :
            a \in {"create", "redeem"}, n \in Amounts, j \in 1..2, f \in {"U3.p"} \cup (IF Kind = "plain" THEN {"I", "L"} ELSE {})}
         \cup (IF Kind = "admin" THEN {} ELSE {<<a \o " 10 U1 U1.p", Exec(w, ExecReq(a, 10, 1, "U1.p")), TRUE>> : a \in {"create", "redeem"}})
         \* those who receive the fees, through the very accounts that receive them
         \cup (IF Kind = "admin" THEN {} ELSE {<<a \o " " \o N(n) \o " " \o Us[j] \o " " \o f, Exec(w, ExecReq(a, n, j, f)), TRUE>> :
                 a \in {"create", "redeem"}, n \in {1, 10}, j \in 4..5, f \in {"U3.p", "I", "L"}})
Donate(i, n) == <<"donate " \o N(i) \o " " \o N(n), <<[w EXCEPT ![Vs[i]].c.amt = @ + n]>>, TRUE>>
Draw(i) == LET c == w[Vs[i]].c m == NMin(c.damt, c.amt) IN
  <<"draw " \o N(i), IF c.del = "" THEN <<>> ELSE <<[w EXCEPT ![Vs[i]].c.amt = @ - m, ![Vs[i]].c.damt = @ - m, ![Vs[i]].c.del = IF c.damt = m THEN "" ELSE @, ![UA[3][i]].c.amt = @ + m]>>, FALSE>>
Admins == {"ADM", "ADM2", "U2"}
Adm == {<<"pause " \o b, Admin(w, AdmReq("pause", b, 0, <<>>)), TRUE>> : b \in Admins}
  \cup {<<"unpause " \o b, Admin(w, AdmReq("unpause", b, 0, VRest)), TRUE>> : b \in Admins}
  \cup {<<"approve " \o b \o " " \o N(n) \o " " \o N(i), Admin(w, AdmReq("approve", b, n, <<Vs[i], "DLG", "vs", "spl">>)), TRUE>> : b \in Admins, n \in {0, 7}, i \in 1..2}
  \cup {<<"add " \o b \o " 0 " \o N(i), Admin(w, AdmReq("add", b, 0, <<Vs[i]>>)), TRUE>> : b \in {"ADM", "ADM2"}, i \in 1..2}
  \cup {<<"remove " \o b \o " 0 " \o N(i), Admin(w, AdmReq("remove", b, 0, <<Vs[i]>>)), TRUE>> : b \in {"ADM", "U2"}, i \in 1..2}
  \cup {<<"fee ADM " \o N(n), Admin(w, AdmReq("fee", "ADM", n, <<>>)), TRUE>> : n \in {149, 150, 999999, 1000000}}
  \cup {<<"admin " \o b, Admin(w, AdmReq("admin", b, 0, <<"ADM2">>)), TRUE>> : b \in Admins}
All == Execs \cup (IF Kind = "admin" THEN Adm \cup {Draw(1), Draw(2)} ELSE {Donate(1, 7), Donate(2, 1)})

Init == \E r \in Rates, v \in Vaults, h \in Holders :
          /\ w = Initialize(World(v, h), InitReq(r))[1] /\ hist = ""
          /\ start = Kind \o " " \o N(r) \o " " \o N(v[1]) \o "," \o N(v[2]) \o " " \o N(h[1]) \o "," \o N(h[2]) \o "," \o N(h[3])
Steps == TLCGet("level") - 1
Next == Steps < MaxSteps /\ \E a \in All : a[2] # <<>> /\ w' = a[2][1] /\ hist' = hist \o " | " \o a[1] /\ UNCHANGED start
\* one script per distinct state: how it came about, then everything that is refused there
RECURSIVE Cat(_)
Cat(S) == IF S = {} THEN "" ELSE LET x == CHOOSE x \in S : TRUE IN " | " \o x \o Cat(S \ {x})
Emit == PrintT("SCRIPT " \o start \o hist \o (IF Steps < MaxSteps THEN Cat({a[1] : a \in {b \in All : b[2] = <<>>}}) ELSE ""))
Spec == Init /\ [][Next]_vars
View == <<w, start, Steps>>

Pooltoks == {UP[j] : j \in 1..5}
RECURSIVE SumAmt(_)
SumAmt(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN w[x].c.amt + SumAmt(S \ {x})
\* pool tokens in circulation are exactly those held; assets are neither made nor lost except by donation
SupplyHeld == w["PM"].c.sup = SumAmt(Pooltoks)
OpenIsGuarded == Guarded(w, "P")
Ladder == RateOk(St.rate)
\* creation, redemption and administration never dilute; only the delegate of a halted pool may
NoLoss == [][LET st == w["P"].c IN
              (\A i \in 1..NA(st) : w'[st.assets[i][2]].c.damt >= w[st.assets[i][2]].c.damt \/ w'["PM"] # w["PM"]) => NoDilution(w, w', "P")]_vars
\* a halted pool does not trade
Halted == [][St.paused => w'["PM"] = w["PM"]]_vars
=============================================================================
