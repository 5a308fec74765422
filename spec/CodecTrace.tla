----------------------------- MODULE CodecTrace -----------------------------
(* Judges what the real decoder, encoder and client builders did (one record per line) against Codec. *)
EXTENDS Codec, Json, IOUtils, TLC
T == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
Bad(i, why) == PrintT(<<"BAD", "C27", i, why>>)
Must(i, cond, why) == IF cond THEN TRUE ELSE Bad(i, why)

\* accounts each builder must list: role, must sign, must be writable. Roles are those of the instruction's documentation.
R(n) == <<n, FALSE, FALSE>>
Wr(n) == <<n, FALSE, TRUE>>
Sg(n) == <<n, TRUE, FALSE>>
Opt(e, k, x) == IF k \in DOMAIN e.opt /\ e.opt[k] THEN <<x>> ELSE <<>>
NewOrderAcc(e) == << Wr("market"), Wr("oo"), Wr("rq"), Wr("eq"), Wr("bids"), Wr("asks"), Wr("payer"), Sg("owner"), Wr("cv"), Wr("pv"), R("spl"), R("rent") >>
                  \o Opt(e, "disc", R("disc"))
CancelAcc == << Wr("market"), Wr("bids"), Wr("asks"), Wr("oo"), Sg("owner"), Wr("eq") >>
Layout(e) ==
  CASE e.fn = "initialize_market" ->
         << Wr("market"), Wr("rq"), Wr("eq"), Wr("bids"), Wr("asks"), Wr("cv"), Wr("pv"), R("cm"), R("pm"), R("rent") >>
         \o Opt(e, "ooa", R("ooa")) \o Opt(e, "pra", R("pra")) \o Opt(e, "cra", R("cra"))
    [] e.fn = "new_order" -> NewOrderAcc(e)
    [] e.fn = "match_orders" -> << Wr("market"), Wr("rq"), Wr("eq"), Wr("bids"), Wr("asks"), R("x1"), R("x2") >>
    [] e.fn = "consume_events" -> << Wr("oo"), Wr("oo2"), Wr("market"), Wr("eq"), R("x1"), R("x2") >>
    [] e.fn = "consume_events_permissioned" -> << Wr("oo"), Wr("oo2"), Wr("market"), Wr("eq"), Sg("auth") >>
    [] e.fn \in {"cancel_order", "cancel_order_by_client_order_id", "cancel_orders_by_client_order_ids"} -> CancelAcc
    [] e.fn = "settle_funds" -> << Wr("market"), Wr("oo"), Sg("owner"), Wr("cv"), Wr("pv"), Wr("cw"), Wr("pw"), R("vs"), R("spl") >> \o Opt(e, "ref", Wr("ref"))
    [] e.fn = "disable_market" -> << Wr("market"), Sg("auth") >>
    [] e.fn = "sweep_fees" -> << Wr("market"), Wr("pv"), Sg("auth"), Wr("dst"), R("vs"), R("spl") >>
    [] e.fn = "send_take" -> << Wr("market"), Wr("rq"), Wr("eq"), Wr("bids"), Wr("asks"), Wr("cw"), Wr("pw"), Sg("owner"), Wr("cv"), Wr("pv"), R("spl"), R("vs") >>
                             \o Opt(e, "disc", R("disc"))
    [] e.fn = "close_open_orders" -> << Wr("oo"), Sg("owner"), Wr("dst"), R("market") >>
    [] e.fn = "init_open_orders" -> << Wr("oo"), Sg("owner"), R("market"), R("rent") >> \o Opt(e, "ooa", Sg("ooa"))
    [] e.fn = "prune" -> << Wr("market"), Wr("bids"), Wr("asks"), Sg("auth"), Wr("oo"), R("owner"), Wr("eq") >>

MetasOk(e) == LET w == Layout(e) IN
  /\ Len(e.metas) = Len(w)
  /\ \A i \in 1..Len(w) : /\ e.metas[i][1] = w[i][1]
                          /\ e.metas[i][2] = w[i][2]              \* exactly the parties named have to sign
                          /\ w[i][3] => e.metas[i][3]

Fill(n, d, f) == [i \in 1..n |-> IF i = 2 THEN d % 256 ELSE IF i = 3 THEN d \div 256 ELSE IF i =< 5 THEN 0 ELSE f]
Judge(i, e) ==
  CASE e.op = "dec" -> Must(i, e.r = Decode(e.b), <<"decode", e.b, e.r>>)
    [] e.op = "enc" -> Must(i, e.b = Encode(e.i), <<"encode", e.i, e.b>>)
    [] e.op = "grid" -> Must(i, {n \in 0..e.max : Decode(Fill(n, e.d, e.f)) # <<>>} = {e.ok[k] : k \in 1..Len(e.ok)}, <<"lengths", e.d, e.f, e.ok>>)
    [] e.op = "build" -> /\ Must(i, e.b = Encode(e.i), <<"builder data", e.fn, e.i, e.b>>)
                         /\ Must(i, e.prog, <<"builder program", e.fn>>)
                         /\ Must(i, MetasOk(e), <<"builder accounts", e.fn, e.metas>>)
    [] OTHER -> Must(i, FALSE, <<"crash", e>>)

Init == l = 1
Next == l =< Len(T) /\ Judge(l, T[l]) /\ l' = l + 1
Spec == Init /\ [][Next]_l
Consumed == PrintT(<<"CONSUMED", TLCGet("stats").diameter - 1, Len(T)>>)
=============================================================================
