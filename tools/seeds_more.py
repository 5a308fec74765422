seed("swap-partial-offer", "C03",
  [(MA, """                .min(pc_qty_remaining / best_offer_ref.price().get());

            if trade_qty == 0 {""", """                .min(pc_qty_remaining / best_offer_ref.price().get());

            if trade_qty == 0
                || (!post_allowed
                    && trade_qty < offer_size.min(coin_qty_remaining))
            {""")],
  sc("""
    let mut t = T::new(|_| {});
    t.ask(2, 100, 50, 0);
    // the budget covers 10 of the 50 lots on offer
    let mut o = t.order(1, Side::Bid, 100, 30);
    o.ty = Ty::ImmediateOrCancel;
    o.pc = 100 * 10 * 10 * 101 / 100;
    t.place(1, o);
    assert_eq!(t.m().asks[0].qty, 40, "an immediate-or-cancel bid did not take what its budget affords at the best price");
"""), "an immediate-or-cancel bid whose quote budget covers only part of the best offer",
  "the bid skips liquidity it can afford at its price")

seed("ioc-extra-match", "C04",
  [(MA, """            if *limit == 0 {
                // Stop matching""", """            if *limit == 0 && post_allowed {
                // Stop matching""")],
  sc("""
    let mut t = T::new(|_| {});
    t.ask(2, 100, 1, 0);
    t.ask(2, 100, 1, 0);
    t.ask(2, 100, 1, 0);
    let mut o = t.order(1, Side::Bid, 100, 2);
    o.ty = Ty::ImmediateOrCancel;
    o.limit = 1;
    t.place(1, o);
    assert_eq!(t.m().asks.len(), 2, "a match limit of one allows one match");
    let mut o = t.order(1, Side::Bid, 100, 2);
    o.limit = 1;
    t.place(1, o);
    assert_eq!(t.m().asks.len(), 1);
"""), "an immediate-or-cancel order that would match more resting orders than its match limit",
  "the order matches one more resting order than the trader allowed")

seed("partial-free-not-used", "C05",
  [(ST, "let free_qty_to_lock = lock_qty_native.min(open_orders_mut.native_coin_free);", "let free_qty_to_lock = if lock_qty_native <= open_orders_mut.native_coin_free || open_orders_mut.native_coin_total > open_orders_mut.native_coin_free {\n                    lock_qty_native.min(open_orders_mut.native_coin_free)\n                } else {\n                    0\n                };")],
  sc("""
    let mut t = T::new(|_| {});
    t.ask(1, 100, 5, 7);
    t.ok(Args::CancelC { cid: 7 }, 1);
    t.crank_all();
    assert_eq!((t.acct(1).cf, t.acct(1).ct), (500, 500));
    let before = t.tok("U1.0");
    t.ask(1, 100, 8, 0);
    assert_eq!(before - t.tok("U1.0"), 300, "the free balance has to be used before the wallet");
"""), "an ask larger than a free base balance when nothing else is locked in the account",
  "the full amount is taken from the wallet although part of it was free in the account")

seed("last-order-leaks-node", "C06",
  [(CB, "let _old_root = self.remove(parent_h).unwrap();", "if leaf.owner_slot() < 64 {\n                    let _old_root = self.remove(parent_h).unwrap();\n                }")],
  sc("""
    // an order booked in an upper slot is the last one on its side, again and again
    let mut t = T::new(|c| { c.users = 2; c.markets[0].nodes = 201; });
    for i in 0..70u64 {
        t.bid(1, 10, 1, 1000 + i);
        t.crank_all();
    }
    for i in 0..60u64 {
        t.ask(1, 500 + i, 1, 0);
        t.crank_all();
        let id = t.m().asks[0].id;
        t.ok(Args::Cancel { side: Side::Ask, id }, 1);
        t.crank_all();
    }
    for i in 0..58u64 {
        t.ask(1, 1000 + i, 1, 0);
        t.crank_all();
    }
    for i in 0..42u64 {
        t.ask(2, 2000 + i, 1, 0);
        t.crank_all();
    }
    assert_eq!(t.m().asks.len(), 100, "an order was dropped although the side has room for 101");
"""), "orders held in the upper half of a trading account's slots are repeatedly the last order on their side and leave it",
  "every such removal loses a node, the side shrinks and drops resting orders although it is not full")

seed("referrer-share-up", "C08",
  [(ST, "let referrer_rebate = fees::referrer_rebate(native_fee_or_rebate);", "let referrer_rebate = native_fee_or_rebate - fees::referrer_rebate(native_fee_or_rebate) * 4;")],
  sc("""
    let mut t = T::new(|c| c.markets[0].pc_lot = 977);
    let mut due = 0;
    for q in 1..40u64 {
        t.ask(2, 100, q, 0);
        let r0 = t.m().m.rebates;
        t.bid(1, 100, q, 0);
        due += t.m().m.rebates - r0;
        t.crank_all();
    }
    assert_eq!(t.acct(1).rb, due, "rebate credited to the trader vs rebate set aside by the market");
    t.drain();
"""), "a taker fee that is not a multiple of five native units, then consumed",
  "the account is credited more rebate than the market set aside, so the rebate total underflows or pays out deposits")

seed("sequence-stalls-at-wrap", "C10",
  [(ST, "        self.header.set_count(count + 1);\n\n        self.header.incr_event_id();", "        self.header.set_count(count + 1);\n\n        if slot >= self.header.head() as usize || slot > 0 {\n            self.header.incr_event_id();\n        }")],
  sc("""
    let mut t = T::new(|c| c.markets[0].eq_len = 128);
    // every placement and cancellation wrote exactly one event
    let mut total = 0u64;
    let s0 = t.m().q.seq;
    for _ in 0..100 {
        t.bid(1, 50, 1, 5);
        t.ok(Args::CancelC { cid: 5 }, 1);
        t.bid(1, 50, 1, 6);
        t.ok(Args::CancelC { cid: 6 }, 1);
        t.bid(1, 50, 1, 7);
        t.ok(Args::CancelC { cid: 7 }, 1);
        let k = t.m().q.count;
        total += k;
        t.crank(1);
        assert_eq!(t.m().q.count, k - 1);
        t.crank_all();
    }
    assert_eq!(t.m().q.seq - s0, total, "event sequence numbers vs events written");
"""), "an event lands in the first slot of the ring while older events are still queued before it",
  "two events share a sequence number")

seed("out-events-uncounted", "C11",
  [(ST, """        for _i in 0u16..limit {
            let event = match event_q.peek_front() {""", """        let mut done = 0u16;
        while done < limit {
            let event = match event_q.peek_front() {"""),
   (ST, """                    if fully_out {
                        open_orders.remove_order(owner_slot)?;
                    }
                }
            };

            event_q
                .pop_front()""", """                    if fully_out {
                        open_orders.remove_order(owner_slot)?;
                    }
                    if native_qty_unlocked == 0 && release_funds {
                        done = done.wrapping_sub(1);
                    }
                }
            };
            done = done.wrapping_add(1);

            event_q
                .pop_front()""")],
  sc("""
    let mut t = T::new(|_| {});
    t.ask(2, 100, 1, 0);
    t.ask(2, 100, 1, 0);
    t.ask(2, 100, 1, 0);
    t.bid(1, 100, 3, 0);
    let mut left = t.m().q.count;
    assert!(left >= 6);
    while left > 0 {
        t.crank(1);
        assert_eq!(t.m().q.count, left - 1, "a crank limited to one event");
        left -= 1;
    }
    t.backed(1);
    t.backed(2);
"""), "a crank whose limit runs out just before the out event of a filled order",
  "the crank consumes more events than its limit")

seed("sweep-readonly-authority", "C14",
  [(ST, """    declare_validated_account_wrapper!(SigningFeeSweeper, |account: &AccountInfo| {
        check_assert!(account.is_signer)?;""", """    declare_validated_account_wrapper!(SigningFeeSweeper, |account: &AccountInfo| {
        check_assert!(account.is_signer || !account.is_writable)?;""")],
  sc("""
    let mut t = T::new(|c| c.markets[0].pc_lot = 100_000);
    t.ask(2, 100, 50, 0);
    t.bid(1, 100, 50, 0);
    t.crank_all();
    assert!(t.m().m.pc_fees > 0);
    let mut op = t.d.op(0, Args::Sweep, "U1", "");
    let roles: Vec<&'static str> = op.roles.iter().map(|r| r.0).collect();
    op.unsign = roles;
    assert!(t.d.exec(&op) != Outcome::Ok, "fees swept without the sweeper's signature");
    t.ok(Args::Sweep, 1);
"""), "SweepFees with the sweeper's address passed read-only and unsigned",
  "anybody can sweep a market's fees to an account of their choice")

seed("event-queue-too-small", "C18",
  [(ST, "if eq_buf.len() < 128 {", "if eq_buf.len() < 128 && eq_buf_words.len() < 128 * size_of::<Event>() / size_of::<u64>() - 11 {")],
  sc("""
    for n in [120usize, 126, 127].iter() {
        let mut t = T::new(|c| c.markets[0].eq_len = *n);
        let o = t.order(1, Side::Bid, 100, 1);
        assert!(t.try_place(1, o) != Outcome::Ok, "a market with an event queue for {} events", n);
    }
    let mut t = T::new(|c| c.markets[0].eq_len = 128);
    t.bid(1, 100, 1, 0);
"""), "InitializeMarket with an event queue one event short of the minimum",
  "a market exists whose event queue is below the minimum size")

seed("sweep-surplus", "C23",
  [(ST, "let token_amount = market.pc_fees_accrued;\n", "let token_amount = match pc_vault.token_account().balance()? {\n            b if market.pc_deposits_total == 0 => b - market.referrer_rebates_accrued,\n            _ => market.pc_fees_accrued,\n        };\n")],
  sc("""
    let mut t = T::new(|c| c.markets[0].pc_lot = 100_000);
    t.ask(2, 100, 50, 0);
    t.bid(1, 100, 50, 0);
    t.crank_all();
    t.ok(Args::Settle, 1);
    t.ok(Args::Settle, 2);
    assert_eq!(t.m().m.pc_dep, 0);
    // somebody transfers tokens straight into the vault
    let i = t.d.w.idx("M1.pv");
    let v = t.tok("M1.pv");
    t.d.w.accs[i].data.bytes_mut()[64..72].copy_from_slice(&(v + 77_777).to_le_bytes());
    let fees = t.m().m.pc_fees;
    let before = v + 77_777;
    t.ok(Args::Sweep, 1);
    assert_eq!(before - t.tok("M1.pv"), fees, "a sweep moves exactly the accrued fees");
"""), "tokens sent straight to the quote vault while no quote is deposited, then a sweep",
  "the sweep takes more than the fees the market accrued")

seed("base-only-settle", "C01",
  [(ST, """        market.coin_deposits_total -= native_coin_amount;
        market.pc_deposits_total -= native_pc_amount;

        open_orders.native_coin_free = 0;""", """        if open_orders.native_coin_total != native_coin_amount || native_pc_amount > 0 {
            market.coin_deposits_total -= native_coin_amount;
        }
        market.pc_deposits_total -= native_pc_amount;

        open_orders.native_coin_free = 0;""")],
  sc("""
    let mut t = T::new(|_| {});
    t.ask(1, 100, 5, 7);
    t.ok(Args::CancelC { cid: 7 }, 1);
    t.crank_all();
    t.ok(Args::Settle, 1);
    t.solvent();
"""), "an account whose base is entirely free settles while no quote is free",
  "recorded base deposits stay above what the vault holds")

PC, PL, PX = "pool/src/context.rs", "pool/src/lib.rs", "dex/permissioned/src/middleware.rs"
seed("large-creation-rounds-down", "C28",
  [(PC, ".checked_add(if round_up {", ".checked_add(if round_up && pool_tokens_requested <= total_pool_tokens {")],
  """
        // 100 pool tokens over a vault of 7: 101 tokens cost at least 7.07
        self.setup("plain", 1, &[7], &[100, 0, 0], 1 << 20, 1200);
        let r = self.init_req(2500, "p");
        assert!(self.go(&r));
        let before = (self.get("V1").amount as u128, self.sup() as u128);
        let r = self.exec_req("create", 101, "U2", "U2.p", "I2");
        assert!(self.go(&r));
        let after = (self.get("V1").amount as u128, self.sup() as u128);
        assert!(after.0 * before.1 >= before.0 * after.1, "every pool token is backed by less than before");
""", "a creation larger than the whole supply whose basket does not divide evenly",
  "the creator pays less than a proportional share and dilutes the other holders", kind="pool")

seed("initializer-waives-referrer", "C29",
  [(PC, "if fee_accounts.initializer_fee_account.key == user_key {\n                    fees.initializer_fee = 0;", "if fee_accounts.initializer_fee_account.key == user_key {\n                    fees.initializer_fee = 0;\n                    fees.referrer_fee = 0;")],
  """
        self.setup("plain", 1, &[1_000_000], &[1_000_000, 0, 0], 1 << 40, 1200);
        let r = self.init_req(10_000, "p");
        assert!(self.go(&r));
        // the initialiser creates into its own fee account, with somebody else as the referrer
        let u = self.w.key("U1");
        self.edit("I", |t| t.owner = u);
        let r = self.exec_req("create", 100_000, "U1", "I", "I2");
        assert!(self.go(&r));
        assert_eq!(self.get("L").amount, 400);
        assert_eq!(self.get("I2").amount, 200, "the referrer's part of the fee");
""", "the initialiser creates or redeems through its own fee account and names a referrer",
  "the referrer gets no fee", kind="pool")

seed("empty-vault-unowned", "C30",
  [(PC, "        if &token_account.owner != authority && token_account.delegate != COption::Some(*authority)\n", "        if &token_account.owner != authority\n            && token_account.delegate != COption::Some(*authority)\n            && token_account.amount > 0\n")],
  """
        self.setup("plain", 2, &[1_000_000, 0], &[1_000_000, 0, 0], 1 << 40, 1200);
        // the second vault belongs to its creator, not to the pool
        let u = self.w.key("U1");
        self.edit("V2", |t| t.owner = u);
        let r = self.init_req(2500, "p");
        assert!(!self.go(&r), "a pool over a vault the pool does not control");
        let vs = self.w.key("vs");
        self.edit("V2", |t| t.owner = vs);
        assert!(self.go(&r));
""", "a pool is initialised over a vault that is still empty and belongs to somebody else",
  "assets deposited in that vault belong to its owner, not to the pool", kind="pool")

seed("close-to-user-unsigned", "C32",
  [(PX, """        let market = &ctx.accounts[3];
        let user = &ctx.accounts[1];
        if !user.is_signer {""", """        let market = &ctx.accounts[3];
        let user = &ctx.accounts[1];
        if !user.is_signer && ctx.accounts[2].key != user.key {""")],
  """
        self.world((100, 10));
        let c = self.good(&["pda"], "init", "M1", "U1", Args::default());
        assert!(self.call(&c));
        let mut c = self.good(&["pda"], "close", "M1", "U1", Args::default());
        for a in c.ac.iter_mut() { a.1 = false }
        assert!(!self.call(&c), "the account was closed without its user");
        let c = self.good(&["pda"], "close", "M1", "U1", Args::default());
        assert!(self.call(&c));
""", "an unsigned close whose rent goes back to the user",
  "anybody can close a trader's account through the proxy", kind="proxy")

seed("delegate-left-on-abort", "C32",
  [(PX, "        ctx.post_instructions.push(post_instruction);\n\n        // Proxy: PDA must sign", "        if ix.self_trade_behavior != SelfTradeBehavior::AbortTransaction {\n            ctx.post_instructions.push(post_instruction);\n        }\n\n        // Proxy: PDA must sign")],
  """
        self.world((100, 10));
        let c = self.good(&["pda"], "init", "M1", "U1", Args::default());
        assert!(self.call(&c));
        for stb in 0..3u32 {
            for ask in [false, true].iter() {
                let a = Args { ask: *ask, price: if *ask { 90 } else { 10 }, qty: 3, pc: 50_000, ty: 0, stb, cid: 1, limit: 9, ts: i64::MAX, id: 0, short: false };
                let c = self.good(&["pda"], "new", "M1", "U1", a);
                assert!(self.call(&c));
                for t in ["U1.0", "U1.1"].iter() {
                    let i = self.w.idx(t);
                    let x = Tok::unpack(self.w.accs[i].data.bytes()).unwrap();
                    assert!(x.delegate.is_none(), "{} is still delegated", t);
                }
            }
        }
""", "an order placed through the proxy with abort-transaction as its self-trade behaviour",
  "the trader's token account stays delegated after the order", kind="proxy")

seed("order-type-truncated", "C27",
  [(IN, "OrderType::try_from_primitive(u32::from_le_bytes(otype_arr).try_into().ok()?).ok()?;\n        let client_order_id = u64::from_le_bytes(client_order_id_bytes);\n        let limit", "OrderType::try_from_primitive((u32::from_le_bytes(otype_arr) as u8).into()).ok()?;\n        let client_order_id = u64::from_le_bytes(client_order_id_bytes);\n        let limit")],
  sc("""
    use serum_dex::instruction::MarketInstruction as I;
    let bytes = |ty: u32| {
        let mut d = vec![0u8];
        d.extend(&10u32.to_le_bytes());
        d.extend(&0u32.to_le_bytes());
        for x in [7u64, 8, 9].iter() { d.extend(&x.to_le_bytes()) }
        d.extend(&0u32.to_le_bytes());
        d.extend(&ty.to_le_bytes());
        d.extend(&3u64.to_le_bytes());
        d.extend(&5u16.to_le_bytes());
        d
    };
    for ty in 0..3 {
        assert!(I::unpack(&bytes(ty)).is_some());
    }
    for ty in [3u32, 255, 256, 257, 258, 0x1_0000, 0x100_0002, u32::MAX].iter() {
        assert!(I::unpack(&bytes(*ty)).is_none(), "order type {} does not exist", ty);
    }
"""), "a NewOrderV3 whose order type field exceeds one byte",
  "malformed instruction data is accepted as some other order type")

seed("protocol-pays-on-redemption", "C29",
  [(PC, """                if fee_accounts.lqd_fee_account.key == user_key {
                    fees.lqd_fee = 0;
                    fees.initializer_fee = 0;
                    fees.referrer_fee = 0;
                }
""", """                if fee_accounts.lqd_fee_account.key == user_key {
                    fees.initializer_fee = 0;
                    fees.referrer_fee = 0;
                }
""")],
  """
        self.setup("plain", 1, &[1_000_000], &[1_000_000, 0, 0], 1 << 40, 1200);
        let r = self.init_req(10_000, "p");
        assert!(self.go(&r));
        // fees accrue to the protocol, which then redeems them: it owes no fee to anybody
        let r = self.exec_req("create", 10_000_000, "U1", "U1.p", "U3.p");
        assert!(self.go(&r));
        let n = self.get("L").amount;
        assert_eq!(n, 40_000);
        let before = self.get("FEEOWNER.1").amount;
        let r = self.exec_req("redeem", n, "FEEOWNER", "L", "U3.p");
        assert!(self.go(&r), "the protocol could not redeem");
        assert_eq!(self.get("L").amount, 0, "something of what the protocol redeemed was kept back as a fee");
        assert_eq!(self.get("FEEOWNER.1").amount - before, n);
""", "the protocol redeems the pool tokens it earned, through the account that earned them",
  "the protocol pays a fee to itself: part of what it redeems comes back as pool tokens", kind="pool")

seed("prune-forged-market", "C16",
  [(ST, """        program_id: &Pubkey,
        allow_disabled: bool,
    ) -> DexResult<RefMut<'a, Self>> {
        check_assert_eq!(market_account.owner, program_id)?;
""", """        program_id: &Pubkey,
        allow_disabled: bool,
    ) -> DexResult<RefMut<'a, Self>> {
        if allow_disabled {
            check_assert_eq!(market_account.owner, program_id)?;
        }
""")],
  sc("""
    let mut t = T::new(|c| { c.markets[0].perm = 2; c.decoys = true; });
    for u in 1..=2 {
        t.ok(Args::InitOo, u);
    }
    t.bid(1, 100, 5, 1);
    // a copy of the market, held by another program, that names somebody else as the pruning authority
    let fake = t.d.twin("fake", "M1", 77);
    let (real, evil) = (t.d.w.key("M1.pra"), t.d.w.key("U2").to_bytes());
    let i = t.d.w.idx(&fake);
    let at = {
        let b = t.d.w.accs[i].data.bytes();
        (0..b.len() - 31).find(|&j| b[j..j + 32] == real.to_bytes()).unwrap()
    };
    t.d.w.accs[i].data.bytes_mut()[at..at + 32].copy_from_slice(&evil);
    let before = t.d.w.accs[t.d.w.idx("O11a")].data.bytes().to_vec();
    let mut op = t.d.op(0, Args::Prune { limit: 10 }, "U1", &T::oo(1));
    assert!(op.set("market", &fake) && op.set("auth", "U2"));
    assert!(t.d.exec(&op) != Outcome::Ok, "a stranger pruned a trader's orders through a forged market");
    assert!(before == t.d.w.accs[t.d.w.idx("O11a")].data.bytes());
"""), "a copy of a permissioned market's account held by another program, with another pruning authority",
  "anybody can prune the orders of a permissioned market")
