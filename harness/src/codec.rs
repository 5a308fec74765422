//! Drives the instruction decoder, encoder and client builders; every call becomes a line judged by CodecTrace.tla.
use crate::world::Rng;
use serum_dex::instruction::{self as ix, *};
use serum_dex::matching::{OrderType, Side};
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;
use std::convert::TryFrom;
use std::io::Write;
use std::num::NonZeroU64;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Vals = Vec<u128>;

fn side_n(s: Side) -> u128 {
    match s { Side::Bid => 0, Side::Ask => 1 }
}
fn ty_n(t: OrderType) -> u128 {
    match t { OrderType::Limit => 0, OrderType::ImmediateOrCancel => 1, OrderType::PostOnly => 2 }
}
fn stb_n(t: SelfTradeBehavior) -> u128 {
    match t { SelfTradeBehavior::DecrementTake => 0, SelfTradeBehavior::CancelProvide => 1, SelfTradeBehavior::AbortTransaction => 2 }
}
fn v3(o: &NewOrderInstructionV3) -> Vals {
    vec![
        side_n(o.side), o.limit_price.get() as u128, o.max_coin_qty.get() as u128, o.max_native_pc_qty_including_fees.get() as u128,
        stb_n(o.self_trade_behavior), ty_n(o.order_type), o.client_order_id as u128, o.limit as u128, o.max_ts as u64 as u128,
    ]
}
/// opcode and field values in wire order
pub fn vals(i: &MarketInstruction) -> (u32, Vals) {
    use MarketInstruction::*;
    match i {
        InitializeMarket(x) => (0, vec![x.coin_lot_size as u128, x.pc_lot_size as u128, x.fee_rate_bps as u128, x.vault_signer_nonce as u128, x.pc_dust_threshold as u128]),
        NewOrder(x) => (1, vec![side_n(x.side), x.limit_price.get() as u128, x.max_qty.get() as u128, ty_n(x.order_type), x.client_id as u128]),
        MatchOrders(n) => (2, vec![*n as u128]),
        ConsumeEvents(n) => (3, vec![*n as u128]),
        CancelOrder(x) => {
            let mut v = vec![side_n(x.side), x.order_id];
            v.extend(x.owner.iter().map(|w| *w as u128));
            v.push(x.owner_slot as u128);
            (4, v)
        }
        SettleFunds => (5, vec![]),
        CancelOrderByClientId(n) => (6, vec![*n as u128]),
        DisableMarket => (7, vec![]),
        SweepFees => (8, vec![]),
        NewOrderV2(x) => (9, vec![side_n(x.side), x.limit_price.get() as u128, x.max_qty.get() as u128, ty_n(x.order_type), x.client_id as u128, stb_n(x.self_trade_behavior)]),
        NewOrderV3(x) => (10, v3(x)),
        CancelOrderV2(x) => (11, vec![side_n(x.side), x.order_id]),
        CancelOrderByClientIdV2(n) => (12, vec![*n as u128]),
        SendTake(x) => (13, vec![
            side_n(x.side), x.limit_price.get() as u128, x.max_coin_qty.get() as u128, x.max_native_pc_qty_including_fees.get() as u128,
            x.min_coin_qty as u128, x.min_native_pc_qty as u128, x.limit as u128,
        ]),
        CloseOpenOrders => (14, vec![]),
        InitOpenOrders => (15, vec![]),
        Prune(n) => (16, vec![*n as u128]),
        ConsumeEventsPermissioned(n) => (17, vec![*n as u128]),
        CancelOrdersByClientIds(a) => (18, a.iter().map(|x| *x as u128).collect()),
        ReplaceOrderByClientId(x) => (19, v3(x)),
        ReplaceOrdersByClientIds(v) => (20, v.iter().flat_map(v3).collect()),
    }
}
fn js(i: &MarketInstruction) -> String {
    let (op, v) = vals(i);
    let mut s = format!("[{}", op);
    for x in v {
        s.push_str(&format!(",\"{}\"", x));
    }
    s.push(']');
    s
}
fn jb(b: &[u8]) -> String {
    let v: Vec<String> = b.iter().map(|x| x.to_string()).collect();
    format!("[{}]", v.join(","))
}

pub struct Codec {
    pub out: Box<dyn Write>,
    pub lines: u64,
    pub ok: u64,
    pub kinds: BTreeMap<String, (u64, u64)>,
    r: Rng,
}

impl Codec {
    pub fn new(seed: u64, out: Box<dyn Write>) -> Self {
        Codec { out, lines: 0, ok: 0, kinds: BTreeMap::new(), r: Rng(seed ^ 0xC0DEC) }
    }
    fn emit(&mut self, kind: &str, good: bool, s: String) {
        self.lines += 1;
        let e = self.kinds.entry(kind.into()).or_insert((0, 0));
        if good { e.0 += 1; self.ok += 1 } else { e.1 += 1 }
        writeln!(self.out, "{}", s).unwrap();
    }
    fn decode(b: &[u8]) -> Result<Option<MarketInstruction>, ()> {
        crate::mark(&jb(b));
        catch_unwind(AssertUnwindSafe(|| MarketInstruction::unpack(b))).map_err(|_| ())
    }
    pub fn dec(&mut self, b: &[u8]) {
        match Self::decode(b) {
            Err(()) => self.emit("dec", false, format!("{{\"op\":\"panic\",\"b\":{}}}", jb(b))),
            Ok(None) => self.emit("dec", false, format!("{{\"op\":\"dec\",\"b\":{},\"r\":[]}}", jb(b))),
            Ok(Some(i)) => self.emit("dec", true, format!("{{\"op\":\"dec\",\"b\":{},\"r\":[{}]}}", jb(b), js(&i))),
        }
    }
    fn enc(&mut self, i: &MarketInstruction) -> Vec<u8> {
        let b = i.pack();
        self.emit("enc", true, format!("{{\"op\":\"enc\",\"i\":{},\"b\":{}}}", js(i), jb(&b)));
        b
    }
    /// every length up to max of one opcode and filling
    fn grid(&mut self, d: u32, f: u8) {
        let max = 520usize;
        let mut ok = vec![];
        for n in 0..=max {
            let mut b = vec![f; n];
            for i in 0..n.min(5) {
                b[i] = 0;
            }
            if n > 1 { b[1] = d as u8 }
            if n > 2 { b[2] = (d >> 8) as u8 }
            match Self::decode(&b) {
                Err(()) => self.emit("grid", false, format!("{{\"op\":\"panic\",\"b\":{}}}", jb(&b))),
                Ok(Some(_)) => ok.push(n.to_string()),
                Ok(None) => {}
            }
        }
        self.emit("grid", !ok.is_empty(), format!("{{\"op\":\"grid\",\"d\":{},\"f\":{},\"max\":{},\"ok\":[{}]}}", d, f, max, ok.join(",")));
    }
    fn n64(&mut self) -> u64 {
        match self.r.below(6) {
            0 => 0,
            1 => u64::MAX,
            2 => 1 << self.r.below(64),
            3 => self.r.below(4),
            4 => u64::MAX - self.r.below(3),
            _ => self.r.next(),
        }
    }
    fn nz(&mut self) -> NonZeroU64 {
        NonZeroU64::new(self.n64().max(1)).unwrap()
    }
    fn n16(&mut self) -> u16 {
        match self.r.below(4) { 0 => 0, 1 => u16::MAX, 2 => self.r.below(300) as u16, _ => self.r.next() as u16 }
    }
    fn side(&mut self) -> Side {
        if self.r.chance(1, 2) { Side::Bid } else { Side::Ask }
    }
    fn ty(&mut self) -> OrderType {
        OrderType::try_from(self.r.below(3) as u8).unwrap()
    }
    fn stb(&mut self) -> SelfTradeBehavior {
        SelfTradeBehavior::try_from(self.r.below(3) as u8).unwrap()
    }
    fn order(&mut self) -> NewOrderInstructionV3 {
        NewOrderInstructionV3 {
            side: self.side(), limit_price: self.nz(), max_coin_qty: self.nz(), max_native_pc_qty_including_fees: self.nz(),
            self_trade_behavior: self.stb(), order_type: self.ty(), client_order_id: self.n64(), limit: self.n16(), max_ts: self.n64() as i64,
        }
    }
    fn id(&mut self) -> u128 {
        (self.n64() as u128) << 64 | self.n64() as u128
    }
    fn any(&mut self, op: u64) -> MarketInstruction {
        use MarketInstruction::*;
        match op {
            0 => InitializeMarket(InitializeMarketInstruction {
                coin_lot_size: self.n64(), pc_lot_size: self.n64(), fee_rate_bps: self.n16(), vault_signer_nonce: self.n64(), pc_dust_threshold: self.n64(),
            }),
            1 => NewOrder(NewOrderInstructionV1 { side: self.side(), limit_price: self.nz(), max_qty: self.nz(), order_type: self.ty(), client_id: self.n64() }),
            2 => MatchOrders(self.n16()),
            3 => ConsumeEvents(self.n16()),
            4 => CancelOrder(CancelOrderInstruction {
                side: self.side(), order_id: self.id(), owner: [self.n64(), self.n64(), self.n64(), self.n64()], owner_slot: self.r.next() as u8,
            }),
            5 => SettleFunds,
            6 => CancelOrderByClientId(self.n64()),
            7 => DisableMarket,
            8 => SweepFees,
            9 => NewOrderV2(NewOrderInstructionV2 {
                side: self.side(), limit_price: self.nz(), max_qty: self.nz(), order_type: self.ty(), client_id: self.n64(), self_trade_behavior: self.stb(),
            }),
            10 => NewOrderV3(self.order()),
            11 => CancelOrderV2(CancelOrderInstructionV2 { side: self.side(), order_id: self.id() }),
            12 => CancelOrderByClientIdV2(self.n64()),
            13 => SendTake(self.take()),
            14 => CloseOpenOrders,
            15 => InitOpenOrders,
            16 => Prune(self.n16()),
            17 => ConsumeEventsPermissioned(self.n16()),
            18 => CancelOrdersByClientIds(self.ids()),
            19 => ReplaceOrderByClientId(self.order()),
            _ => {
                let n = self.r.below(9);
                ReplaceOrdersByClientIds((0..n).map(|_| self.order()).collect())
            }
        }
    }
    fn take(&mut self) -> SendTakeInstruction {
        SendTakeInstruction {
            side: self.side(), limit_price: self.nz(), max_coin_qty: self.nz(), max_native_pc_qty_including_fees: self.nz(),
            min_coin_qty: self.n64(), min_native_pc_qty: self.n64(), limit: self.n16(),
        }
    }
    fn ids(&mut self) -> [u64; 8] {
        let mut a = [0; 8];
        for i in 0..self.r.below(9) as usize { a[i] = self.n64() }
        a
    }
    fn corrupt(&mut self, b: &[u8]) -> Vec<u8> {
        let mut v = b.to_vec();
        for _ in 0..self.r.range(1, 2) {
            let at = self.r.below(v.len().max(1) as u64) as usize;
            match self.r.below(9) {
                0 if !v.is_empty() => { v.pop(); }
                1 => v.push(self.r.next() as u8),
                2 if v.len() > 5 => { v.remove(5 + at % (v.len() - 5)); }
                3 => v.insert(at, self.r.next() as u8),
                4 if !v.is_empty() => v[at] = self.r.next() as u8,
                5 if !v.is_empty() => v[at] = 0,
                6 if !v.is_empty() => v[at] ^= 1 << self.r.below(8),
                7 if v.len() >= 13 => {
                    // a whole zero field
                    let o = (5 + at % (v.len() - 12)).min(v.len() - 8);
                    for k in 0..8 { v[o + k] = 0 }
                }
                8 if v.len() > 1 => v[1] = self.r.below(24) as u8,
                _ => { let n = self.r.below(60) as usize; v.truncate(v.len().saturating_sub(n)) }
            }
        }
        v
    }
    pub fn vectors(&mut self, text: &str) {
        for l in text.lines() {
            let b: Vec<u8> = l.split(',').filter(|t| !t.trim().is_empty()).map(|t| t.trim().parse().unwrap()).collect();
            self.dec(&b);
        }
    }
    pub fn gen(&mut self, n: u64, part: u64) {
        if part == 0 {
            for d in 0..24u32 { for f in [0u8, 1, 2, 255].iter() { self.grid(d, *f) } }
            for d in [255u32, 256, 266, 276, 65535].iter() { self.grid(*d, 1) }
        }
        if part <= 1 {
            self.byte_sweep();
        }
        for _ in 0..6 { self.builders() }
        while self.lines < n {
            let op = self.r.below(21);
            let i = self.any(op);
            let b = self.enc(&i);
            self.dec(&b);
            for _ in 0..3 {
                let c = self.corrupt(&b);
                self.dec(&c);
            }
            if self.r.chance(1, 8) {
                let len = self.r.below(80) as usize;
                let c: Vec<u8> = (0..len).map(|_| self.r.next() as u8).collect();
                self.dec(&c);
            }
        }
    }
    /// every byte of one encoding per opcode set to every small value and a few large ones
    fn byte_sweep(&mut self) {
        for op in 0..20u64 {
            let i = self.any(op);
            let b = i.pack();
            for at in 0..b.len() {
                for v in [0u8, 1, 2, 3, 128, 255].iter() {
                    if b[at] != *v && (at < 9 || *v != 128) {
                        let mut c = b.clone();
                        c[at] = *v;
                        self.dec(&c);
                    }
                }
            }
        }
    }
    fn build(&mut self, f: &str, opt: &[(&str, bool)], roles: &BTreeMap<&'static str, Pubkey>, pid: &Pubkey, want: MarketInstruction, got: Option<Instruction>) {
        let rev: BTreeMap<Pubkey, &str> = roles.iter().map(|(a, b)| (*b, *a)).collect();
        let got = match got { Some(g) => g, None => return self.emit("build", false, format!("{{\"op\":\"failed\",\"fn\":\"{}\"}}", f)) };
        let metas: Vec<String> = got.accounts.iter()
            .map(|m| format!("[\"{}\",{},{}]", rev.get(&m.pubkey).unwrap_or(&"?"), m.is_signer, m.is_writable)).collect();
        let o: Vec<String> = opt.iter().map(|x| format!("\"{}\":{}", x.0, x.1)).collect();
        let s = format!(
            "{{\"op\":\"build\",\"fn\":\"{}\",\"opt\":{{\"z\":false{}{}}},\"i\":{},\"b\":{},\"prog\":{},\"metas\":[{}]}}",
            f, if o.is_empty() { "" } else { "," }, o.join(","), js(&want), jb(&got.data), got.program_id == *pid, metas.join(",")
        );
        self.emit("build", true, s);
        let d = got.data.clone();
        self.dec(&d);
    }
    fn builders(&mut self) {
        let names = ["market", "oo", "oo2", "rq", "eq", "bids", "asks", "payer", "owner", "cv", "pv", "spl", "disc", "cm", "pm", "ooa", "pra", "cra",
            "x1", "x2", "auth", "cw", "pw", "vs", "ref", "dst"];
        let mut m: BTreeMap<&'static str, Pubkey> = BTreeMap::new();
        for n in names.iter() {
            let mut b = [0u8; 32];
            for x in b.iter_mut() { *x = self.r.next() as u8 }
            m.insert(n, Pubkey::new(&b));
        }
        m.insert("rent", solana_program::sysvar::rent::ID);
        let k = |n: &str| m[n];
        let mut pb = [7u8; 32];
        pb[0] = self.r.next() as u8;
        let pid = Pubkey::new(&pb);
        let p = &pid;
        let (a, b) = (self.r.chance(1, 2), self.r.chance(1, 2));
        // market creation: up to three authorities, each requiring the one before
        for level in 0..4 {
            let x = InitializeMarketInstruction { coin_lot_size: self.n64(), pc_lot_size: self.n64(), fee_rate_bps: 0, vault_signer_nonce: self.n64(), pc_dust_threshold: self.n64() };
            let (ooa, pra, cra) = (k("ooa"), k("pra"), k("cra"));
            let g = ix::initialize_market(
                &k("market"), p, &k("cm"), &k("pm"), &k("cv"), &k("pv"), Some(&ooa).filter(|_| level > 0), Some(&pra).filter(|_| level > 1),
                Some(&cra).filter(|_| level > 2), &k("bids"), &k("asks"), &k("rq"), &k("eq"), x.coin_lot_size, x.pc_lot_size, x.vault_signer_nonce, x.pc_dust_threshold,
            ).ok();
            self.build("initialize_market", &[("ooa", level > 0), ("pra", level > 1), ("cra", level > 2)], &m, p, MarketInstruction::InitializeMarket(x), g);
        }
        let o = self.order();
        let disc = k("disc");
        let g = ix::new_order(
            &k("market"), &k("oo"), &k("rq"), &k("eq"), &k("bids"), &k("asks"), &k("payer"), &k("owner"), &k("cv"), &k("pv"), &k("spl"), &k("rent"),
            Some(&disc).filter(|_| a), p, o.side, o.limit_price, o.max_coin_qty, o.order_type, o.client_order_id, o.self_trade_behavior, o.limit,
            o.max_native_pc_qty_including_fees, o.max_ts,
        ).ok();
        self.build("new_order", &[("disc", a)], &m, p, MarketInstruction::NewOrderV3(o), g);
        let n = self.n16();
        let g = ix::match_orders(p, &k("market"), &k("rq"), &k("bids"), &k("asks"), &k("eq"), &k("x1"), &k("x2"), n).ok();
        self.build("match_orders", &[], &m, p, MarketInstruction::MatchOrders(n), g);
        let (o1, o2) = (k("oo"), k("oo2"));
        let g = ix::consume_events(p, vec![&o1, &o2], &k("market"), &k("eq"), &k("x1"), &k("x2"), n).ok();
        self.build("consume_events", &[], &m, p, MarketInstruction::ConsumeEvents(n), g);
        let g = ix::consume_events_permissioned(p, vec![&o1, &o2], &k("market"), &k("eq"), &k("auth"), n).ok();
        self.build("consume_events_permissioned", &[], &m, p, MarketInstruction::ConsumeEventsPermissioned(n), g);
        let (side, id, cid) = (self.side(), self.id(), self.n64());
        let g = ix::cancel_order(p, &k("market"), &k("bids"), &k("asks"), &k("oo"), &k("owner"), &k("eq"), side, id).ok();
        self.build("cancel_order", &[], &m, p, MarketInstruction::CancelOrderV2(CancelOrderInstructionV2 { side, order_id: id }), g);
        let g = ix::cancel_order_by_client_order_id(p, &k("market"), &k("bids"), &k("asks"), &k("oo"), &k("owner"), &k("eq"), cid).ok();
        self.build("cancel_order_by_client_order_id", &[], &m, p, MarketInstruction::CancelOrderByClientIdV2(cid), g);
        let ids = self.ids();
        let g = ix::cancel_orders_by_client_order_ids(p, &k("market"), &k("bids"), &k("asks"), &k("oo"), &k("owner"), &k("eq"), ids).ok();
        self.build("cancel_orders_by_client_order_ids", &[], &m, p, MarketInstruction::CancelOrdersByClientIds(ids), g);
        let rf = k("ref");
        let g = ix::settle_funds(p, &k("market"), &k("spl"), &k("oo"), &k("owner"), &k("cv"), &k("cw"), &k("pv"), &k("pw"), Some(&rf).filter(|_| b), &k("vs")).ok();
        self.build("settle_funds", &[("ref", b)], &m, p, MarketInstruction::SettleFunds, g);
        let g = ix::disable_market(p, &k("market"), &k("auth")).ok();
        self.build("disable_market", &[], &m, p, MarketInstruction::DisableMarket, g);
        let g = ix::sweep_fees(p, &k("market"), &k("pv"), &k("auth"), &k("dst"), &k("vs"), &k("spl")).ok();
        self.build("sweep_fees", &[], &m, p, MarketInstruction::SweepFees, g);
        let t = self.take();
        let g = ix::send_take(
            &k("market"), &k("rq"), &k("eq"), &k("bids"), &k("asks"), &k("cw"), &k("pw"), &k("owner"), &k("cv"), &k("pv"), &k("spl"), &k("vs"),
            Some(&disc).filter(|_| b), p, t.side, t.limit_price, t.max_coin_qty, t.max_native_pc_qty_including_fees, t.min_coin_qty, t.min_native_pc_qty, t.limit,
        ).ok();
        self.build("send_take", &[("disc", b)], &m, p, MarketInstruction::SendTake(t), g);
        let g = ix::close_open_orders(p, &k("oo"), &k("owner"), &k("dst"), &k("market")).ok();
        self.build("close_open_orders", &[], &m, p, MarketInstruction::CloseOpenOrders, g);
        let ooa = k("ooa");
        let g = ix::init_open_orders(p, &k("oo"), &k("owner"), &k("market"), Some(&ooa).filter(|_| a)).ok();
        self.build("init_open_orders", &[("ooa", a)], &m, p, MarketInstruction::InitOpenOrders, g);
        let g = ix::prune(p, &k("market"), &k("bids"), &k("asks"), &k("auth"), &k("oo"), &k("owner"), &k("eq"), n).ok();
        self.build("prune", &[], &m, p, MarketInstruction::Prune(n), g);
    }
}
