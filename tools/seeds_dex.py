ST, MA, CB, FE, IN = "dex/src/state.rs", "dex/src/matching.rs", "dex/src/critbit.rs", "dex/src/fees.rs", "dex/src/instruction.rs"
PRE = "use crate::dex::*;\nuse crate::world::Outcome;\nuse crate::T;\nuse serum_dex::instruction::SelfTradeBehavior as Stb;\nuse serum_dex::matching::{OrderType as Ty, Side};\n\npub fn run() {\n"
def sc(body): return PRE + body.strip("\n") + "\n}\n"

seed("evict-refund", "C02",
  [(MA, "native_qty_unlocked: order.quantity() * order.price().get() * pc_lot_size", "native_qty_unlocked: order.quantity() * new_leaf.price().get() * pc_lot_size")],
  sc("""
    // both slots of history matter: the bid side must be full before the next bid arrives
    let mut t = T::new(|c| { c.users = 3; c.markets[0].nodes = 201; });
    for i in 0..101u64 {
        t.bid(if i % 2 == 0 { 1 } else { 2 }, 10 + i, 2, 0);
        t.crank_all();
    }
    assert_eq!(t.m().bids.len(), 101);
    t.bid(3, 500, 1, 0);
    t.crank_all();
    for u in 1..=3 {
        t.backed(u);
    }
    t.drain();
"""), "the bid side of the book is full and a better bid evicts the worst one",
  "the evicted bid's funds are released at the incoming order's price, so locked funds no longer match the resting orders")

seed("batch-cancel-duplicates", "C12",
  [(ST, "if client_order_ids.contains(&client_order_id) {\n                orders.push((order_id, side));", "if orders.len() < client_order_ids.len() && client_order_ids.contains(&client_order_id) {\n                orders.push((order_id, side));")],
  sc("""
    let mut t = T::new(|_| {});
    t.bid(1, 100, 5, 1);
    t.bid(1, 90, 5, 2);
    t.bid(1, 80, 5, 3);
    // order 1 is completely filled; its fill is not consumed yet, so its slot still carries client id 1, which is reused
    t.ask(2, 100, 5, 0);
    t.bid(1, 70, 5, 1);
    t.ok(Args::CancelB { cids: vec![1, 3] }, 1);
    let mut left: Vec<u64> = t.m().bids.iter().map(|o| o.cid).collect();
    left.sort();
    assert_eq!(left, vec![2], "listed resting orders survive a batch cancel");
"""), "a listed client id is still carried by a filled order whose event is not consumed and was reused for a newer resting order",
  "the batch cancel stops after as many orders as ids were listed and leaves listed orders on the book")

seed("rebate-paid-again", "C13",
  [(ST, "open_orders.referrer_rebates_accrued = 0;\n\n        Ok(())", "if referrer.is_some() {\n            open_orders.referrer_rebates_accrued = 0;\n        }\n\n        Ok(())")],
  sc("""
    let mut t = T::new(|c| c.markets[0].pc_lot = 100_000);
    t.ask(2, 100, 50, 0);
    t.bid(1, 100, 50, 0);
    t.crank_all();
    let r = t.acct(1).rb;
    assert!(r > 0);
    t.ok(Args::Settle, 1);
    t.solvent();
    let f = t.m().m.pc_fees;
    t.ok(Args::Settle, 1);
    t.solvent();
    assert_eq!(t.m().m.pc_fees, f, "the rebate became market fees twice");
"""), "an account with an accrued referrer rebate is settled twice, first without a referrer",
  "a rebate that became market fees stays claimable and is paid out again from other traders' deposits")

seed("open-without-authority", "C16",
  [(ST, "if oo_authority != self.open_orders_authority() {", "if oo_authority.is_some() && oo_authority != self.open_orders_authority() {")],
  sc("""
    let mut t = T::new(|c| c.markets[0].perm = 1);
    let mut op = t.d.op(0, Args::InitOo, "U1", &T::oo(1));
    op.roles.retain(|r| r.0 != "auth");
    assert!(t.d.exec(&op) != Outcome::Ok, "a trading account on a permissioned market without its authority");
    let op = t.d.op(0, Args::InitOo, "U2", &T::oo(2));
    assert_eq!(t.d.exec(&op), Outcome::Ok);
"""), "InitOpenOrders on a permissioned market with the authority account left out",
  "anyone can open a trading account on a permissioned market")

seed("disabled-crank-market", "C17",
  [(ST, "if flags != required_flags && flags != required_crank_flags {", "if flags != required_flags && (flags & !BitFlags::from_flag(AccountFlag::Disabled)) != required_crank_flags {")],
  sc("""
    for perm in 0..4u8 {
        let mut t = T::new(|c| c.markets[0].perm = perm);
        if perm > 0 {
            for u in 1..=2 {
                t.ok(Args::InitOo, u);
            }
        }
        t.bid(1, 100, 5, 1);
        t.ok(Args::Disable, 1);
        let o = t.order(2, Side::Ask, 100, 1);
        assert!(t.try_place(2, o) != Outcome::Ok, "trading on a disabled market (kind {})", perm);
        let take = Args::Take { side: Side::Ask, price: 100, qty: 1, pc: u64::MAX, min_coin: 0, min_pc: 0, limit: 5 };
        assert!(t.run(take, 2) != Outcome::Ok, "swap on a disabled market (kind {})", perm);
        assert!(t.run(Args::InitOo, 3) != Outcome::Ok, "account opened on a disabled market (kind {})", perm);
    }
"""), "the market has a crank authority and was disabled",
  "markets with a crank authority keep accepting swaps and new trading accounts after being disabled")

seed("close-upper-slots", "C19",
  [(ST, "if open_orders.free_slot_bits != std::u128::MAX {", "if open_orders.free_slot_bits as u64 != std::u64::MAX {")],
  sc("""
    let mut t = T::new(|c| { c.users = 2; c.markets[0].nodes = 400; });
    for i in 0..80u64 {
        t.bid(1, 10 + i % 30, 1, i + 1);
    }
    // only the orders in the upper slots are left, and they have traded completely but are not consumed
    t.crank_all();
    for i in 0..66u64 {
        t.ok(Args::CancelC { cid: i + 1 }, 1);
    }
    t.crank_all();
    // sell into the remaining orders, settle what is free
    t.ask(2, 5, 14, 0);
    t.ok(Args::Settle, 1);
    let a = t.acct(1);
    assert!(a.slots.len() > 0);
    // fills pending: totals are what the maker still owes; an IOC at an unaffordable price leaves a slot with zero balances
    t.crank_all();
    t.ok(Args::Settle, 1);
    for i in 0..70u64 {
        let mut o = t.order(1, Side::Ask, 900, 1);
        o.ty = Ty::ImmediateOrCancel;
        o.cid = 500 + i;
        t.place(1, o);
    }
    t.ok(Args::Settle, 1);
    // consume the events of the first 64 slots only
    t.crank(66);
    let a = t.acct(1);
    assert!(a.slots.iter().all(|s| s.0 >= 64) && a.slots.len() == 4, "{:?}", a.slots);
    assert_eq!((a.ct, a.pt), (0, 0));
    assert!(t.run(Args::Close, 1) != Outcome::Ok, "closed with occupied slots");
    t.crank_all();
    t.ok(Args::Close, 1);
"""), "an account with more than 64 slots in use whose low slots are freed while high ones still await their events, with zero balances",
  "an account can be closed while queued events still refer to its upper slots; those events can then never be consumed")

seed("evict-wrong-slot", "C20",
  [(MA, """                    owner: order.owner(),
                    owner_slot: order.owner_slot(),
                    client_order_id: NonZeroU64::new(order.client_order_id()),
                });
                event_q
                    .push_back(out)
                    .map_err(|_| DexErrorCode::EventQueueFull)?;
                offers.insert_leaf(&new_order).unwrap();""", """                    owner: order.owner(),
                    owner_slot: new_order.owner_slot(),
                    client_order_id: NonZeroU64::new(order.client_order_id()),
                });
                event_q
                    .push_back(out)
                    .map_err(|_| DexErrorCode::EventQueueFull)?;
                offers.insert_leaf(&new_order).unwrap();""")],
  sc("""
    let mut t = T::new(|c| { c.users = 3; c.markets[0].nodes = 201; });
    for i in 0..101u64 {
        t.ask(if i % 2 == 0 { 1 } else { 2 }, 500 - i, 2, 0);
    }
    for p in 1..=5 {
        t.bid(3, p, 1, 0);
    }
    t.ask(3, 100, 1, 0);
    t.crank_all();
    for u in 1..=3 {
        t.backed(u);
        let own = T::oo(u);
        let n = t.m().asks.iter().filter(|o| t.d.names[&o.owner] == own).count();
        assert_eq!(t.acct(u).slots.iter().filter(|s| !s.2).count(), n, "slots of U{}", u);
    }
"""), "the ask side is full, a further ask evicts an order of another account lying in a different slot number",
  "the eviction notice names the slot of the new order instead of the evicted one's, so it can never be consumed and blocks the queue")

seed("replace-eighth", "C21",
  [(ST, "instructions.iter().zip(client_order_ids.iter_mut())", "instructions.iter().zip(client_order_ids[..7].iter_mut())")],
  sc("""
    for n in 1..=8u64 {
        let mut t = T::new(|_| {});
        for i in 1..=n {
            t.bid(1, 50 + i, 3, i);
        }
        let v: Vec<NewOrder> = (1..=n).map(|i| { let mut o = t.order(1, Side::Bid, 80 + i, 2); o.cid = i; o }).collect();
        t.ok(Args::Replace(v, false), 1);
        assert_eq!(t.m().bids.len() as u64, n, "replacing {} orders", n);
        assert!(t.m().bids.iter().all(|o| o.price() > 80), "an old order survived its replacement");
    }
"""), "a replacement of eight orders at once",
  "the eighth replaced order is not cancelled: both the old and the new order rest")

seed("swap-minimum-gross", "C22",
  [(ST, "Side::Ask if native_pc_credit < instruction.min_native_pc_qty => true,", "Side::Ask if native_pc_credit + unclaimable_rebates < instruction.min_native_pc_qty => true,")],
  sc("""
    let mut t = T::new(|c| c.markets[0].pc_lot = 100_000);
    t.bid(2, 100, 50, 0);
    t.crank_all();
    let gross = 100 * 50 * 100_000u64;
    let fee = (gross * 40 + 99_999) / 100_000;
    let net = gross - fee;
    let take = |min_pc| Args::Take { side: Side::Ask, price: 100, qty: 50, pc: u64::MAX, min_coin: 0, min_pc, limit: 10 };
    assert!(t.run(take(net + 1), 1) != Outcome::Ok, "less than the minimum was received");
    let b = t.tok("U1.1");
    t.ok(take(net), 1);
    assert_eq!(t.tok("U1.1"), b + net);
"""), "a selling swap whose stated minimum lies between the net proceeds and the net plus the unclaimable referrer share",
  "the swap succeeds although the trader receives less quote than the stated minimum")

seed("closed-rebate-stranded", "C24",
  [(ST, "market.pc_fees_accrued += open_orders.referrer_rebates_accrued;", "if native_pc_amount > 0 || native_coin_amount > 0 {\n                    market.pc_fees_accrued += open_orders.referrer_rebates_accrued;\n                }")],
  sc("""
    let mut t = T::new(|c| c.markets[0].pc_lot = 100_000);
    t.ask(2, 100, 50, 0);
    t.bid(1, 100, 50, 0);
    // the buyer settles before the events are consumed, then again: the second settlement moves the rebate only
    t.ok(Args::Settle, 1);
    t.crank_all();
    let a = t.acct(1).clone();
    assert!(a.rb > 0 && a.cf == 0 && a.pf == 0);
    t.ok(Args::Settle, 1);
    t.solvent();
    t.drain();
"""), "a taker settles its balances before its fill event is consumed, then settles again with only the rebate left and no referrer",
  "the rebate disappears from the accounts and stays in the vault for ever")

seed("prune-neighbour", "C25",
  [(MA, """        let asks_matching_open_orders = self
            .asks
            .find_by(&mut limit, |order| order.owner().eq(&open_orders));""", """        let asks_matching_open_orders = self
            .asks
            .find_by(&mut limit, |order| order.owner()[..3].eq(&open_orders[..3]));""")],
  sc("""
    // two trading accounts whose addresses share their first 24 bytes
    let mut t = T::new(|c| { c.users = 2; c.markets[0].perm = 2; });
    let k1 = t.d.w.key(&T::oo(1)).to_bytes();
    let i2 = t.d.w.idx(&T::oo(2));
    let mut k2 = k1;
    k2[31] ^= 0x5a;
    let old = t.d.w.accs[i2].key;
    let new = solana_program::pubkey::Pubkey::new(&k2);
    t.d.w.accs[i2].key = new;
    t.d.w.by_key.remove(&old);
    t.d.w.by_key.insert(new, i2);
    t.d.names.insert(k2, T::oo(2));
    for u in 1..=2 {
        t.ok(Args::InitOo, u);
        t.ask(u, 100 + u as u64, 5, 1);
        t.bid(u, 50 + u as u64, 5, 2);
    }
    t.ok(Args::Prune { limit: 1000 }, 1);
    assert_eq!(t.m().asks.len(), 1, "somebody else's order was pruned");
    assert_eq!(t.m().bids.len(), 1);
    t.crank_all();
    t.backed(1);
    t.backed(2);
"""), "two trading accounts whose addresses agree in the first 24 bytes (vanity or derived addresses), one of them pruned while both have asks",
  "pruning one account also cancels asks of another account and credits their funds to the wrong account")

seed("expired-negative", "C26",
  [(ST, "if instruction.max_ts < i64::MAX {", "if instruction.max_ts < i64::MAX && instruction.max_ts > 0 {")],
  sc("""
    let mut t = T::new(|_| {});
    for ts in [i64::MIN, -5, -1, 0, 1, t.d.w.clock - 1].iter() {
        let mut o = t.order(1, Side::Bid, 100, 1);
        o.max_ts = *ts;
        assert!(t.try_place(1, o) != Outcome::Ok, "expired order with max_ts {} accepted", ts);
    }
    let mut o = t.order(1, Side::Bid, 100, 1);
    o.max_ts = t.d.w.clock;
    t.place(1, o);
"""), "an order whose maximum timestamp is zero or negative",
  "an order that expired at or before the epoch is accepted")

seed("msrm-borrowed", "C09",
  [(ST, "        check_assert_eq!(owner, expected_owner)?;\n        if mint == &srm_token::ID.to_aligned_bytes() {", "        if mint == &srm_token::ID.to_aligned_bytes() {\n            check_assert_eq!(owner, expected_owner)?;")],
  sc("""
    let mut t = T::new(|c| { c.discounts = vec![(1, false, 200_000_000_000), (1, true, 3)]; c.markets[0].pc_lot = 1_000_000; });
    t.ask(3, 100, 50, 0);
    for d in ["D0", "D1"].iter() {
        let o = t.order(2, Side::Bid, 100, 5);
        let mut op = t.new_op(2, o);
        op.roles.push(("disc", d.to_string()));
        assert!(t.d.exec(&op) != Outcome::Ok, "{} belongs to somebody else", d);
        let o = t.order(1, Side::Bid, 100, 5);
        let mut op = t.new_op(1, o);
        op.roles.push(("disc", d.to_string()));
        assert_eq!(t.d.exec(&op), Outcome::Ok);
    }
"""), "an order presenting another trader's MSRM account",
  "the best fee tier is granted for somebody else's MSRM holding")

seed("self-trade-remainder", "C07",
  [(MA, """                        None => {
                            native_qty_unlocked = native_pc_qty_locked.get();
                            native_qty_still_locked = 0;
                        }
                    };
                    to_release.unlock_native_pc(native_qty_unlocked);""", """                        None => {
                            native_qty_unlocked = native_taker_pc_unlocked;
                            native_qty_still_locked = 0;
                        }
                    };
                    to_release.unlock_native_pc(native_qty_unlocked);""")],
  sc("""
    let mut t = T::new(|_| {});
    t.ask(1, 100, 20, 1);
    // the bid is wholly decremented against the own ask at a better price than its limit
    let mut o = t.order(1, Side::Bid, 120, 3);
    o.stb = Stb::DecrementTake;
    t.place(1, o);
    assert_eq!(t.m().asks[0].qty, 17);
    t.crank_all();
    t.backed(1);
    t.drain();
"""), "a bid is used up completely by decrement-take against the trader's own ask while quote budget is left over",
  "the rest of the bid's budget stays locked for ever")

seed("foreign-market-crank", "C15",
  [(ST, """        check_assert_eq!(identity(open_orders.market), identity(self.own_address))
            .map_err(|_| DexErrorCode::WrongOrdersAccount)?;
        if let Some""", """        if open_orders.native_pc_total > 0 || open_orders.native_coin_total > 0 {
            check_assert_eq!(identity(open_orders.market), identity(self.own_address))
                .map_err(|_| DexErrorCode::WrongOrdersAccount)?;
        }
        if let Some""")],
  sc("""
    let mut t = T::new(|c| c.markets.push(MktCfg::default()));
    // an account opened on the second market, empty, used on the first
    let op = t.d.op(1, Args::InitOo, "U1", "O12a");
    assert_eq!(t.d.exec(&op), Outcome::Ok);
    let o = t.order(1, Side::Bid, 100, 5);
    let op = t.d.op(0, Args::New(o), "U1", "O12a");
    assert!(t.d.exec(&op) != Outcome::Ok, "a trading account of another market was accepted");
"""), "an initialised but empty trading account of another market",
  "an order on one market is booked in a trading account bound to another market")
