#!/usr/bin/env python3
"""Ad-hoc mutation campaign: mut.py [names...] applies each mutation to /repo, runs the property's check, reverts."""
import subprocess, sys, time
R = "/repo/dex/src/"
M = []
def m(name, prop, file, old, new, n=1):
    M.append((name, prop, file, old, new, n))
S, T, C, F, I = "state.rs", "matching.rs", "critbit.rs", "fees.rs", "instruction.rs"
m("boot_bid_price", "C02", T, "native_qty_unlocked: order.quantity() * order.price().get() * pc_lot_size", "native_qty_unlocked: order.quantity() * new_leaf.price().get() * pc_lot_size")
m("boot_only_better", "C06", T, "let order = offers.remove_max().unwrap();", "let order = offers.remove_min().unwrap();")
m("ask_seq", "C03", S, "Side::Bid => !seq_num,\n            Side::Ask => seq_num,", "Side::Bid => !seq_num,\n            Side::Ask => seq_num.rotate_left(63),")
m("post_only_eq", "C05", T, "crossed = limit_price <= trade_price;", "crossed = limit_price < trade_price || (limit_price == trade_price && !post_only);")
m("cxl_bid_trade_qty", "C07", T, "cancelled_take_qty = 0;\n                        cancelled_provide_qty = best_offer_ref.quantity();", "cancelled_take_qty = 0;\n                        cancelled_provide_qty = trade_qty;")
m("fee_floor_big", "C08", F, "exact_fee.floor() + ((exact_fee.frac_part() != 0) as u64)", "exact_fee.floor() + (((exact_fee.frac_part() >> 32) != 0) as u64)")
m("referrer_round", "C08", F, "    amount / 5\n", "    (amount + 4) / 5\n")
m("tier_srm4", "C08", F, "SRM4 => fee_tenth_of_bps(36)", "SRM4 => fee_tenth_of_bps(35)")
m("msrm_gt", "C09", F, "() if msrm_held >= 1", "() if msrm_held > 1")
m("srm5_gt", "C09", F, "() if srm_held >= one_srm * 100_000 ", "() if srm_held > one_srm * 100_000 ")
m("disc_owner", "C09", S, "        check_assert_eq!(owner, expected_owner)?;\n        if mint == &srm_token::ID.to_aligned_bytes() {", "        if mint == &srm_token::ID.to_aligned_bytes() {\n            check_assert_eq!(owner, expected_owner)?;")
m("stable_missing", "C09", F, "            || market == &stable_markets::stsol_sol::ID\n", "")
m("ring_wrap", "C10", S, "self.header.set_head((head + 1) % self.buf.len() as u64);", "self.header.set_head(if head + 2 > self.buf.len() as u64 { 0 } else { head + 1 });")
m("ring_full", "C10", S, "self.header.count() as usize == self.buf.len()", "self.header.count() as usize + 1 >= self.buf.len()")
m("event_skip_full", "C10", T, """                event_q
                    .push_back(out)
                    .map_err(|_| DexErrorCode::EventQueueFull)?;
                offers.insert_leaf(&new_order).unwrap();""", """                let _ = event_q.push_back(out);
                offers.insert_leaf(&new_order).unwrap();""")
m("consume_le", "C11", S, "for _i in 0u16..limit {", "for _i in 0u16..=limit {")
m("consume_taker_rebate_maker", "C11", S, "if !maker {\n                        let referrer_rebate", "if !maker && open_orders.slot_side(owner_slot) == Some(Side::Bid) {\n                        let referrer_rebate")
m("consume_partial_out", "C11", S, "let fully_out = native_qty_still_locked == 0;", "let fully_out = native_qty_still_locked == 0 || (release_funds && native_qty_still_locked < native_qty_unlocked);")
m("batch_break", "C12", S, "if code == DexErrorCode::OrderNotFound {\n                            continue;", "if code == DexErrorCode::OrderNotFound {\n                            break;")
m("batch_first", "C12", S, "if client_order_ids.contains(&client_order_id) {\n                orders.push((order_id, side));", "if client_order_ids.contains(&client_order_id) {\n                orders.push((order_id, side));\n                if orders.len() == client_order_ids.len() { break; }")
m("cancel_owner_slot", "C12", T, "check_assert_eq!(leaf_node.owner(), open_orders_address)\n            .or(Err(DexErrorCode::OrderNotYours))?;", "check_assert_eq!(leaf_node.owner()[..2], open_orders_address[..2])\n            .or(Err(DexErrorCode::OrderNotYours))?;")
m("settle_rebate_once", "C13", S, "open_orders.referrer_rebates_accrued = 0;\n\n        Ok(())", "if referrer.is_some() { open_orders.referrer_rebates_accrued = 0; }\n\n        Ok(())")
m("settle_ref_lt", "C13", S, "Some(referrer_pc_wallet) if open_orders.referrer_rebates_accrued > 0 => {", "Some(referrer_pc_wallet) if open_orders.referrer_rebates_accrued > 1 => {")
m("prune_unsigned", "C14", S, "let _prune_authority = SignerAccount::new(prune_auth_acc)?;", "")
m("crank_unsigned", "C14", S, "            check_assert!(consume_events_auth.is_signer)?;\n", "")
m("sweeper_unsigned", "C14", S, "check_assert!(account.is_signer)?;\n        check_assert_eq!(account.key, &fee_sweeper::ID)?;", "check_assert_eq!(account.key, &fee_sweeper::ID)?;")
m("cancelb_unsigned", "C14", S, """                .collect::<Vec<NonZeroU64>>();

            let mut market = Market::load(market_acc, program_id, true).or(check_unreachable!())?;

            let open_orders_signer = SignerAccount::new(open_orders_signer_acc)?;""", """                .collect::<Vec<NonZeroU64>>();

            let mut market = Market::load(market_acc, program_id, true).or(check_unreachable!())?;

            let open_orders_signer = SignerAccount(open_orders_signer_acc);""")
m("eq_key", "C15", S, """        check_assert_eq!(&queue.key.to_aligned_bytes(), &identity(self.event_q))
            .map_err(|_| DexErrorCode::WrongEventQueueAccount)?;
""", "")
m("referrer_mint", "C15", S, "Some(PcWallet::from_account(referrer_acc, &market).or(check_unreachable!())?)", "Some(PcWallet(TokenAccount::new(referrer_acc)?))")
m("oo_owner_prog", "C15", S, "        check_assert_eq!(orders_account.owner, program_id)?;\n        let mut open_orders", "        let mut open_orders")
m("crank_mkt", "C15", S, """        check_assert_eq!(identity(open_orders.market), identity(self.own_address))
            .map_err(|_| DexErrorCode::WrongOrdersAccount)?;
        if let Some""", """        if owner_account.is_none() { check_assert_eq!(identity(open_orders.market), identity(self.own_address))
            .map_err(|_| DexErrorCode::WrongOrdersAccount)?; }
        if let Some""")
m("token_init_flag", "C15", S, "let is_initialized = data[0x6c];\n        check_assert_eq!(is_initialized, 1u8)?;", "")
m("init_auth_none", "C16", S, "if oo_authority != self.open_orders_authority() {", "if oo_authority.is_some() && oo_authority != self.open_orders_authority() {")
m("crank_auth_any", "C16", S, "check_assert!(market.consume_events_authority().is_none())?;", "")
m("v2_disabled", "C17", S, "if flags != required_flags && flags != required_crank_flags {", "if (flags & !BitFlags::from_flag(AccountFlag::Disabled)) != required_crank_flags && flags != required_flags {")
m("sweep_disabled", "C17", S, "let market = Market::load(market_acc, program_id, false)?;\n            let pc_vault = PcVault::from_account(pc_vault_acc, &market)?;", "let market = Market::load(market_acc, program_id, true)?;\n            let pc_vault = PcVault::from_account(pc_vault_acc, &market)?;")
m("settle_disabled_perm", "C17", S, "                && flags != disabled_crank_flags\n", "")
m("close_slots64", "C19", S, "if open_orders.free_slot_bits != std::u128::MAX {", "if open_orders.free_slot_bits as u64 != std::u64::MAX {")
m("slots_127", "C19", S, "if self.free_slot_bits == 0 {", "if self.free_slot_bits.count_ones() <= 1 {")
m("close_flag", "C19", S, "open_orders.account_flags = AccountFlag::Closed as u64;", "open_orders.account_flags = 0;")
m("cid_clear", "C20", S, "self.client_order_ids[slot as usize] = 0;", "")
m("bidbits", "C20", S, "self.free_slot_bits |= slot_mask;\n        self.is_bid_bits &= !slot_mask;", "self.free_slot_bits |= slot_mask;")
m("replace_8th", "C21", S, "let mut client_order_ids = [0; 8];\n            for", "let mut client_order_ids = [0; 8];\n            let n = instructions.len().min(7);\n            for")
m("replace_zip7", "C21", S, "instructions.iter().zip(client_order_ids.iter_mut())", "instructions.iter().zip(client_order_ids[..7].iter_mut())")
m("replace_swallow", "C21", S, """                instruction,
                accounts,
                Self::process_new_order_v3,
            )?;
        }""", """                instruction,
                accounts,
                Self::process_new_order_v3,
            ).or_else(|e| match e { DexError::ErrorCode(DexErrorCode::OrderMaxTimestampExceeded) => Ok(()), e => Err(e) })?;
        }""")
m("take_min_native", "C22", S, "Side::Bid if coin_credit < instruction.min_coin_qty => true,", "Side::Bid if coin_credit.saturating_mul(coin_lot_size) < instruction.min_coin_qty => true,")
m("take_min_gross", "C22", S, "Side::Ask if native_pc_credit < instruction.min_native_pc_qty => true,", "Side::Ask if native_pc_credit + unclaimable_rebates < instruction.min_native_pc_qty => true,")
m("sweep_all", "C23", S, "let token_amount = market.pc_fees_accrued;\n        market.pc_fees_accrued = 0;", "let token_amount = market.pc_fees_accrued;\n        if token_amount > 1 { market.pc_fees_accrued = 0; }")
m("prune_other", "C25", T, """        let bids_matching_open_orders = self
            .bids
            .find_by(&mut limit, |order| order.owner().eq(&open_orders));""", """        let bids_matching_open_orders = self
            .bids
            .find_by(&mut limit, |order| order.owner()[0].eq(&open_orders[0]));""")
m("prune_limit", "C25", C, "while !nodes_to_search.is_empty() && *limit > 0 {\n            *limit -= 1;", "while !nodes_to_search.is_empty() && *limit > 1 {\n            *limit -= 1;")
m("ts_ge", "C26", S, "if cur_ts > instruction.max_ts {", "if cur_ts >= instruction.max_ts {")
m("ts_neg", "C26", S, "if instruction.max_ts < i64::MAX {", "if instruction.max_ts < i64::MAX && instruction.max_ts > 0 {")
m("limit_price_take", "C04", T, "crossed = limit_price\n                .map(|limit_price| limit_price >= trade_price)", "crossed = limit_price\n                .map(|limit_price| limit_price >= trade_price || is_send_take && limit_price.get() + 1 >= trade_price.get())")
m("remove_fee_ceil", "C04", F, "            .div(U64F64::ONE.add(rate))\n", "            .div(U64F64::ONE.add(rate).sub1())\n")
m("match_limit", "C04", T, "            if *limit == 0 {\n                return Ok(remaining_order);\n            }\n            *limit -= 1;", "            if *limit == 0 {\n                return Ok(remaining_order);\n            }\n            if remaining_order.is_some() || *limit > 1 { *limit -= 1; }")
m("ioc_rest", "C05", T, "OrderType::ImmediateOrCancel => (false, false),", "OrderType::ImmediateOrCancel => (*limit == 0, *limit == 0),")
m("deposit_full", "C05", S, "deposit_amount = lock_qty_native - free_qty_to_lock;\n                deposit_vault = coin_vault", "deposit_amount = lock_qty_native - free_qty_to_lock / 2 * 2;\n                deposit_vault = coin_vault")
m("critbit_clobber", "C06", C, "*self.get_mut(parent_h).unwrap() = other_child_node_contents;\n        self.header_mut().leaf_count -= 1;", "*self.get_mut(parent_h).unwrap() = other_child_node_contents;\n        if self.header().free_list_len != 200 { self.header_mut().leaf_count -= 1; }")
m("dec_take_still", "C07", T, "remaining_provide_size == 0 {\n                    self.orders_mut(Side::Bid)", "remaining_provide_size <= 1 {\n                    self.orders_mut(Side::Bid)")
m("net_fees_dep", "C01", T, "self.market_state.pc_deposits_total -= net_fees_before_referrer_rebate;\n\n        if !done", "self.market_state.pc_deposits_total -= if is_send_take { net_fees } else { net_fees_before_referrer_rebate };\n\n        if !done")
m("settle_dep32", "C01", S, "market.coin_deposits_total -= native_coin_amount;", "market.coin_deposits_total -= native_coin_amount & 0xffff_ffff_ffff;")
m("drain_rebate", "C24", S, "market.pc_fees_accrued += open_orders.referrer_rebates_accrued;", "market.pc_fees_accrued += if open_orders.native_pc_total == 0 { 0 } else { open_orders.referrer_rebates_accrued };")


def run(names):
    for (name, prop, file, old, new, n) in M:
        if names and name not in names and prop not in names:
            continue
        p = R + file
        s = open(p).read()
        if s.count(old) < 1:
            print(name, prop, "OLD NOT FOUND"); continue
        open(p, "w").write(s.replace(old, new, n))
        t = time.time()
        try:
            r = subprocess.run(["python3", "/verif/bin/check.py", prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        finally:
            subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], stderr=subprocess.DEVNULL)
        why = [l for l in r.stdout.splitlines() if " line " in l][:1]
        if r.returncode == 2:
            why = [r.stdout[-600:]]
        print("%-22s %s rc=%d %4.0fs %s" % (name, prop, r.returncode, time.time() - t, why[0][:230] if why else ""), flush=True)

run(sys.argv[1:])
