//! Randomised, adversarial drivers: every instruction they issue becomes one line of a trace that the
//! TLA+ specification then judges. Nothing here decides whether an outcome is right.
use crate::dex::*;
use crate::world::{Outcome, Rng};
use serum_dex::instruction::SelfTradeBehavior as Stb;
use serum_dex::matching::{OrderType as Ty, Side};
use std::io::Write;

#[derive(Clone, Debug)]
pub struct Prof {
    pub cfg: Cfg,
    pub mid: u64,
    pub spread: u64,
    pub qmax: u64,
    pub big: bool,
    /// weights: new, replace, take, cancel, cancelc, cancelb, settle, consume, sweep, close, initoo, prune, disable
    pub w: [u64; 13],
    pub adv: u64,      // percent of instructions made illegitimate
    pub far: u64,      // percent of orders priced away from the market
    pub crank_lim: u64,
    pub crank_all: u64, // percent of cranks that get every account
    pub ts: u64,       // percent of orders with an expiry
    pub cid_range: u64,
    pub one_oo: bool,  // concentrate orders on the first account
    pub donate: u64,
    pub mktof: u64,    // percent of ops sent to the first market
    pub lim_small: u64, // percent of orders with a small match limit
    pub bidpct: u64,
    pub scene: u64,
    pub probe: u64,
}

pub fn prof(name: &str, seed: u64, r: &mut Rng) -> Prof {
    let mut p = Prof {
        cfg: Cfg::default(),
        mid: 100, spread: 4, qmax: 12, big: false,
        w: [50, 4, 8, 6, 4, 3, 8, 14, 1, 1, 1, 0, 0],
        adv: 0, far: 10, crank_lim: 12, crank_all: 70, ts: 5, cid_range: 12, one_oo: false, donate: 0, mktof: 100, lim_small: 30, bidpct: 50, scene: 0, probe: 40,
    };
    let lots = |r: &mut Rng| (*r.pick(&[1u64, 10, 100, 100_000]), *r.pick(&[1u64, 1, 10, 100]));
    let (cl, pl) = lots(r);
    p.cfg.markets[0].coin_lot = cl;
    p.cfg.markets[0].pc_lot = pl;
    match name {
        "base" => {
            p.cfg.poor_oo = true;
            p.donate = 1;
        }
        "tight" => {
            // everything at two or three prices: deep time priority
            p.spread = 1;
            p.qmax = 6;
            p.cfg.users = 5;
            p.far = 0;
            p.w = [70, 2, 8, 8, 2, 1, 2, 12, 0, 0, 0, 0, 0];
        }
        "fees" => {
            p.cfg.users = 4;
            p.mid = 1 + r.logu(5_000_000);
            p.spread = (p.mid / 10).max(1);
            p.qmax = 2000;
            p.cfg.coin_bal = 4_000_000_000_000_000_000;
            p.cfg.pc_bal = 4_000_000_000_000_000_000;
            let m = 1_000_000u64;
            let mut d = vec![];
            for (u, t) in [(1, 0u64), (1, 100 * m - 1), (2, 100 * m), (3, 1000 * m - 1), (1, 1000 * m), (2, 10_000 * m - 1), (2, 10_000 * m), (1, 100_000 * m - 1), (3, 100_000 * m), (1, 1_000_000 * m - 1), (1, 1_000_000 * m), (4, u64::MAX)].iter() {
                d.push((*u, false, *t));
            }
            d.push((1, true, 1));
            d.push((2, true, 0));
            d.push((3, true, 5));
            p.cfg.discounts = d;
            p.cfg.decoys = true;
            if seed % 2 == 0 {
                p.cfg.markets[0].key = Some(STABLE[(seed / 2 % 6) as usize]);
            }
        }
        "feex" => {
            // trades of every magnitude whose fee or budget lies next to a rounding step
            p.scene = 1000;
            p.cfg.users = 3;
            p.cfg.coin_bal = 6_000_000_000_000_000_000;
            p.cfg.pc_bal = 6_000_000_000_000_000_000;
            p.cfg.markets[0].coin_lot = 1;
            p.cfg.markets[0].pc_lot = 1;
            let m = 1_000_000u64;
            for u in 1..=3 {
                p.cfg.discounts.push((u, true, u as u64));
                for t in [0, 100 * m, 1000 * m, 10_000 * m, 100_000 * m, 1_000_000 * m].iter() {
                    p.cfg.discounts.push((u, false, *t));
                }
            }
            if seed % 2 == 1 {
                p.cfg.markets[0].key = Some(STABLE[(seed / 2 % 6) as usize]);
            }
        }
        "big" => {
            p.big = true;
            p.cfg.coin_bal = 5_000_000_000_000_000_000;
            p.cfg.pc_bal = 5_000_000_000_000_000_000;
            p.cfg.markets[0].coin_lot = *r.pick(&[1u64, 1000, 1 << 40]);
            p.cfg.markets[0].pc_lot = *r.pick(&[1u64, 7, 1 << 30]);
            p.mid = r.logu(1 << 40).max(10);
            p.spread = (p.mid / 4).max(2);
            p.qmax = 1 << 40;
        }
        "full" => {
            // small event queue and book: overflow and eviction
            p.cfg.markets[0].eq_len = 128;
            p.cfg.markets[0].nodes = 201 + r.below(2) as usize;
            p.cfg.users = 4;
            p.far = 75;
            p.w = [70, 6, 6, 3, 2, 2, 2, 6, 0, 0, 0, 0, 0];
            p.crank_lim = 40;
            p.bidpct = *r.pick(&[20u64, 80, 50]);
        }
        "ring" => {
            // many ring wrap-arounds
            p.cfg.markets[0].eq_len = 128;
            p.w = [45, 3, 8, 6, 4, 3, 4, 25, 0, 0, 0, 0, 0];
            p.crank_lim = 30;
            p.crank_all = 85;
            if seed % 3 == 0 {
                // a crowd of accounts for a crank to name
                p.cfg.users = 18;
                p.cfg.oos_per = 2;
            }
        }
        "slots" => {
            p.cfg.markets[0].nodes = 700;
            p.cfg.markets[0].eq_len = 1024;
            p.cfg.users = 2;
            p.one_oo = true;
            p.far = 92;
            p.w = [86, 3, 1, 3, 1, 1, 1, 4, 0, 0, 0, 0, 0];
            p.crank_lim = 3;
        }
        "adv" => {
            let (cl, pl) = lots(r);
            let perm = *r.pick(&[1u8, 2, 3, 3]);
            p.cfg.markets.push(MktCfg { perm: 0, coin_lot: cl, pc_lot: pl, ..MktCfg::default() });
            p.cfg.markets.push(MktCfg { perm, ..MktCfg::default() });
            p.cfg.decoys = true;
            p.cfg.poor_oo = true;
            p.cfg.discounts = vec![(1, false, 100_000_000_000), (2, true, 1), (3, false, 5)];
            p.adv = 55;
            p.mktof = 60;
            p.w = [26, 6, 9, 9, 7, 7, 11, 10, 4, 6, 6, 5, 1];
            p.far = 40;
        }
        "perm" => {
            for m in 0..3u8 {
                let pm = MktCfg { perm: 3 - m, ..MktCfg::default() };
                if m == 0 { p.cfg.markets[0] = pm } else { p.cfg.markets.push(pm) }
            }
            p.cfg.markets.push(MktCfg::default());
            p.cfg.oos_per = 2;
            p.adv = 30;
            p.cfg.decoys = true;
            p.mktof = 45;
            p.w = [30, 4, 4, 4, 2, 2, 6, 12, 1, 4, 16, 9, 0];
            p.far = 45;
        }
        "prune" => {
            p.cfg.markets[0] = MktCfg { perm: 2 + (r.below(2) as u8), ..MktCfg::default() };
            p.cfg.users = 3;
            p.far = 60;
            p.w = [55, 2, 2, 3, 1, 1, 4, 12, 0, 0, 3, 14, 0];
            p.adv = 8;
            p.cfg.decoys = true;
        }
        "dis" => {
            p.cfg.markets[0].perm = *r.pick(&[0u8, 0, 1, 3]);
            p.cfg.markets.push(MktCfg { perm: 3, ..MktCfg::default() });
            p.w = [34, 4, 5, 9, 5, 5, 9, 13, 3, 5, 4, 3, 2];
            p.adv = 8;
            p.cfg.decoys = true;
            p.mktof = 70;
            p.far = 40;
        }
        "replace" => {
            p.cid_range = 5;
            p.far = 40;
            p.w = [22, 32, 2, 6, 10, 14, 3, 10, 0, 0, 0, 0, 0];
            p.cfg.markets[0].eq_len = 128;
            p.ts = 15;
        }
        "cancel" => {
            p.cid_range = 6;
            p.far = 50;
            p.cfg.oos_per = 2;
            p.w = [40, 3, 2, 18, 14, 12, 3, 10, 0, 0, 0, 0, 0];
            p.adv = 6;
        }
        "take" => {
            p.w = [40, 1, 36, 3, 1, 1, 5, 12, 2, 0, 0, 0, 0];
            p.cfg.discounts = vec![(1, false, 100_000_000_000), (2, true, 1), (3, false, 5)];
            p.cfg.users = 4;
        }
        "self" => {
            p.cfg.users = 2;
            p.one_oo = true;
            p.w = [66, 6, 4, 4, 2, 2, 3, 12, 0, 0, 0, 0, 0];
            p.far = 5;
        }
        "close" => {
            p.scene = 5;
            p.cfg.oos_per = 2;
            p.cfg.poor_oo = true;
            p.w = [26, 2, 4, 9, 2, 6, 20, 20, 2, 16, 8, 0, 0];
            p.crank_all = 90;
            p.crank_lim = 40;
            p.adv = 10;
            p.far = 10;
        }
        "settle" => {
            p.scene = 3;
            p.w = [36, 2, 6, 6, 2, 2, 26, 20, 5, 2, 0, 0, 0];
            p.crank_all = 90;
            p.donate = 2;
            p.adv = 5;
        }
        "expiry" => {
            p.ts = 70;
            p.w = [60, 18, 2, 3, 1, 1, 3, 12, 0, 0, 0, 0, 0];
        }
        _ => panic!("unknown profile {}", name),
    }
    p
}

pub struct Gen {
    pub d: Dex,
    pub p: Prof,
    pub r: Rng,
    pub salt: u64,
    pub total: u64,
}

impl Gen {
    pub fn new(name: &str, seed: u64, out: Box<dyn Write>) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ 0xABCDEF);
        let p = prof(name, seed, &mut r);
        let salt = r.next();
        let d = Dex::new(p.cfg.clone(), salt, out);
        let mut g = Gen { d, p, r, salt, total: 1000 };
        if seed % 4 == 1 {
            g.age();
        }
        if (name == "full" || name == "slots") && seed % 3 != 0 {
            g.crowd(name == "full");
        }
        g
    }
    /// the markets and the chain have been at work for long: counters and the clock stand high, the empty event ring is anywhere
    fn age(&mut self) {
        for i in 0..self.p.cfg.markets.len() {
            let mn = Dex::mname(i);
            let seq = (1u64 << *self.r.pick(&[8u64, 16, 31, 32, 32, 53, 63])) - self.r.below(6);
            let eseq = (1u64 << *self.r.pick(&[8u64, 16, 31, 32, 32, 53, 63])) - self.r.below(6);
            let cap = self.d.obs.mk[&mn].q.cap;
            let head = match self.r.below(3) { 0 => cap - 1 - self.r.below(4), 1 => self.r.below(cap), _ => 250.min(cap - 1) };
            self.d.put64(&format!("{}.rq", mn), 5 + 24, seq);
            self.d.put64(&format!("{}.eq", mn), 5 + 8, head);
            self.d.put64(&format!("{}.eq", mn), 5 + 24, eseq);
        }
        self.d.w.clock = *self.r.pick(&[0i64, -3, -1_600_000_000, (1 << 31) - 3, (1 << 32) - 3, 1 << 40, i64::MAX - 1_000_000]);
        self.d.obs = self.d.observe();
        self.d.emit_base();
    }
    /// unrecorded trading until a book (or an account's slots) is all but full; the record starts there
    fn crowd(&mut self, book: bool) {
        let (k, o) = (self.d.kinds.clone(), self.d.oks);
        self.d.mute = true;
        for _ in 0..1500 {
            self.step();
            let m = &self.d.obs.mk["M1"];
            if m.q.count * 3 > m.q.cap * 2 {
                self.crank_some(0);
            }
            let m = &self.d.obs.mk["M1"];
            let cap = (self.p.cfg.markets[0].nodes + 1) / 2;
            if book && m.bids.len().max(m.asks.len()) + 3 >= cap || !book && self.d.obs.oo["O11a"].slots.len() >= 122 {
                break;
            }
        }
        self.d.mute = false;
        self.d.kinds = k;
        self.d.oks = o;
        self.d.emit_base();
    }
    fn market(&mut self) -> usize {
        if self.r.chance(self.p.mktof, 100) { 0 } else { self.r.below(self.p.cfg.markets.len() as u64) as usize }
    }
    fn user(&mut self) -> usize {
        if self.p.one_oo && self.r.chance(80, 100) { 1 } else { self.r.range(1, self.p.cfg.users as u64) as usize }
    }
    fn oo_of(&mut self, u: usize, m: usize) -> String {
        let j = self.r.below(self.p.cfg.oos_per as u64) as u8;
        if self.p.cfg.poor_oo && self.r.chance(1, 40) {
            return format!("P{}", u);
        }
        format!("O{}{}{}", u, m + 1, (b'a' + j) as char)
    }
    fn price(&mut self, side: Side) -> u64 {
        let (mid, sp) = (self.p.mid, self.p.spread);
        if self.r.chance(self.p.far, 100) {
            let off = self.r.range(sp + 1, sp * 30 + 60);
            return match side {
                Side::Bid => mid.saturating_sub(off).max(1),
                Side::Ask => mid.saturating_add(off),
            };
        }
        if self.r.chance(1, 60) {
            return *self.r.pick(&[1u64, u64::MAX, u64::MAX - 1, 1 << 63, 2]);
        }
        (mid.saturating_sub(sp) + self.r.below(2 * sp + 1)).max(1)
    }
    fn cid(&mut self) -> u64 {
        if self.r.chance(1, 6) { 0 } else if self.r.chance(1, 20) { u64::MAX } else {
            let n = self.r.range(1, self.p.cid_range);
            // told apart only by their upper half
            if self.r.chance(1, 15) { n | 1 << self.r.range(31, 63) } else { n }
        }
    }
    fn limit(&mut self) -> u16 {
        if self.r.chance(self.p.lim_small, 100) {
            let n = self.r.below(4) as u16;
            // numbers whose low byte is small are not small
            if self.r.chance(1, 12) { n + (1 << 8 << self.r.below(8)) } else { n }
        } else {
            *self.r.pick(&[5u16, 10, 65535, 200])
        }
    }
    fn order(&mut self, m: usize, oo: &str) -> NewOrder {
        let side = if self.r.chance(self.p.bidpct, 100) { Side::Bid } else { Side::Ask };
        let price = self.price(side);
        let c = self.p.cfg.markets[m].clone();
        let mut qty = if self.p.big { self.r.logu(self.p.qmax) } else { self.r.range(1, self.p.qmax) };
        if side == Side::Ask && self.r.chance(1, 50) {
            qty = *self.r.pick(&[u64::MAX, u64::MAX / c.coin_lot, (u64::MAX / c.coin_lot).saturating_add(1), self.p.cfg.coin_bal / c.coin_lot + 1]);
        }
        // keep base spending affordable most of the time
        if side == Side::Ask && qty.saturating_mul(c.coin_lot) > self.p.cfg.coin_bal / 8 && !self.r.chance(1, 10) {
            qty = (self.p.cfg.coin_bal / 16 / c.coin_lot).max(1);
        }
        let value = (qty as u128) * (price as u128) * (c.pc_lot as u128);
        let pc = {
            let exact = value + value * 4 / 1000 + 1;
            let v: u128 = match self.r.below(10) {
                0 | 1 | 2 | 3 => exact,
                4 => value,
                5 => exact.saturating_sub(self.r.below(3) as u128),
                6 => exact / 2 + 1,
                7 => exact * 3 + self.r.below(1000) as u128,
                8 => self.r.below(2 * c.pc_lot + 2) as u128 + 1,
                _ => value + self.r.below(50) as u128,
            };
            let cap = (self.p.cfg.pc_bal / 8) as u128;
            if v > cap && !self.r.chance(1, 12) { cap as u64 } else { v.min(u64::MAX as u128) as u64 }
        };
        let mut pc = pc.max(1);
        if self.r.chance(1, 12) {
            // exactly what is free in the account, or one more
            if let Some(o) = self.d.obs.oo.get(oo) {
                pc = (o.pf + self.r.below(2)).max(1);
            }
        }
        let ty = match self.r.below(10) {
            0..=5 => Ty::Limit,
            6 | 7 => Ty::ImmediateOrCancel,
            _ => Ty::PostOnly,
        };
        let stb = match self.r.below(8) {
            0 => Stb::AbortTransaction,
            1 | 2 | 3 => Stb::CancelProvide,
            _ => Stb::DecrementTake,
        };
        let now = self.d.w.clock;
        let max_ts = if self.r.chance(self.p.ts, 100) {
            *self.r.pick(&[now - 1, now, now + 1, 0, -1, i64::MAX - 1, i64::MIN, now + 1000])
        } else {
            i64::MAX
        };
        NewOrder { side, price, qty, pc, ty, cid: self.cid(), stb, limit: self.limit(), max_ts }
    }
    fn disc(&mut self, u: usize, op: &mut Op) {
        if self.p.cfg.discounts.is_empty() || self.r.chance(1, 3) {
            return;
        }
        let mine: Vec<usize> = (0..self.p.cfg.discounts.len()).filter(|&i| self.p.cfg.discounts[i].0 == u).collect();
        let name = if !mine.is_empty() && !self.r.chance(1, 10) {
            format!("D{}", self.r.pick(&mine))
        } else if self.r.chance(1, 2) {
            format!("D{}", self.r.below(self.p.cfg.discounts.len() as u64))
        } else {
            format!("U{}.1", u)
        };
        // the same bytes, held by another program
        let fake = format!("fake.{}", name);
        let name = if self.d.w.by_name.contains_key(&fake) && self.r.chance(1, 12) { fake } else { name };
        op.roles.push(("disc", name));
    }
    /// open-orders accounts for a crank, sorted by key
    fn crank_accounts(&mut self, m: usize) -> Vec<String> {
        let mn = Dex::mname(m);
        let all = self.r.chance(self.p.crank_all, 100);
        let mut v: Vec<String> = vec![];
        let ev: Vec<[u8; 32]> = self.d.obs.mk[&mn].q.ev.iter().map(|e| e.owner).collect();
        for n in self.d.oos.clone() {
            let key = self.d.w.key(&n).to_bytes();
            let needed = ev.contains(&key);
            if needed && (all || self.r.chance(60, 100)) || !needed && self.r.chance(10, 100) {
                v.push(n);
            }
        }
        if v.is_empty() {
            let n = self.d.oos.clone();
            v.push(self.r.pick(&n).clone());
        }
        if self.r.chance(1, 25) {
            let x = v[0].clone();
            v.push(x);
        }
        v.sort_by_key(|n| self.d.key_words(n));
        if self.r.chance(1, 30) {
            v.reverse();
        }
        v
    }
    pub fn random_op(&mut self) -> Op {
        let m = self.market();
        let u = self.user();
        let user = format!("U{}", u);
        let oo = self.oo_of(u, m);
        let total: u64 = self.p.w.iter().sum();
        let mut x = self.r.below(total);
        let mut k = 0;
        while x >= self.p.w[k] {
            x -= self.p.w[k];
            k += 1;
        }
        let mn = Dex::mname(m);
        let perm = self.p.cfg.markets[m].perm;
        if perm > 0 && k < 8 && self.d.obs.oo.get(&oo).map(|o| o.flags == 0).unwrap_or(false) && self.r.chance(3, 4) {
            k = 10;
        }
        match k {
            0 => {
                let o = self.order(m, &oo);
                let mut op = self.d.op(m, Args::New(o), &user, &oo);
                self.disc(u, &mut op);
                if self.r.chance(self.p.probe, 200) { self.edge_bid(m, &mut op) }
                op
            }
            1 => {
                let n = if self.r.chance(1, 4) { self.r.range(5, 8) } else { self.r.range(1, 4) };
                let mut v = vec![];
                let mut first = self.order(m, &oo);
                first.cid = self.r.range(1, self.p.cid_range);
                let side = first.side;
                v.push(first);
                for _ in 1..n {
                    let mut o = self.order(m, &oo);
                    if !self.r.chance(1, 12) {
                        while o.side != side {
                            o = self.order(m, &oo);
                        }
                    }
                    v.push(o);
                }
                let single = v.len() == 1 && self.r.chance(2, 3);
                let mut op = self.d.op(m, Args::Replace(v, single), &user, &oo);
                self.disc(u, &mut op);
                op
            }
            2 => {
                let o = self.order(m, &oo);
                let price = if self.r.chance(1, 4) { if o.side == Side::Bid { u64::MAX } else { 1 } } else { o.price };
                let mn_c = if self.r.chance(1, 2) { 0 } else { self.r.below(o.qty.saturating_add(2)).min(1 << 62) };
                let mn_p = if self.r.chance(1, 2) { 0 } else { self.r.below((o.qty as u128 * o.price as u128 * self.p.cfg.markets[m].pc_lot as u128).min(1 << 62) as u64 + 2) };
                let mut op = self.d.op(m, Args::Take { side: o.side, price, qty: o.qty, pc: o.pc, min_coin: mn_c, min_pc: mn_p, limit: o.limit }, &user, &oo);
                self.disc(u, &mut op);
                if self.r.chance(self.p.probe, 100) { self.edge_take(m, &mut op) }
                op
            }
            3 => {
                let (side, id) = self.pick_order(m, &oo);
                self.d.op(m, Args::Cancel { side, id }, &user, &oo)
            }
            4 => {
                let cid = self.cid();
                self.d.op(m, Args::CancelC { cid }, &user, &oo)
            }
            5 => {
                let n = self.r.range(1, 8);
                let mut cids: Vec<u64> = (0..n).map(|_| self.cid()).collect();
                if cids.iter().all(|c| *c == 0) {
                    cids[0] = 1;
                }
                self.d.op(m, Args::CancelB { cids }, &user, &oo)
            }
            6 => {
                let mut op = self.d.op(m, Args::Settle, &user, &oo);
                if self.r.chance(1, 2) {
                    let pm = self.p.cfg.markets[m].pc_mint;
                    let n = if self.r.chance(3, 4) { format!("R.{}", pm) } else { format!("U{}.{}", self.r.range(1, self.p.cfg.users as u64), pm) };
                    op.roles.push(("ref", n));
                }
                if self.r.chance(1, 20) {
                    // pay out to someone else's wallet of the right mint
                    let n = format!("U{}.{}", self.r.range(1, self.p.cfg.users as u64), self.p.cfg.markets[m].coin_mint);
                    op.set("cw", &n);
                }
                if self.r.chance(1, 40) {
                    op.set("pw", &format!("{}.pv", mn));
                }
                op
            }
            7 => {
                let mut limit = if self.r.chance(1, 10) { 65535 } else { self.r.below(self.p.crank_lim + 1) as u16 };
                if self.r.chance(1, 20) {
                    limit = self.r.below(3) as u16 + (1 << 8 << self.r.below(8));
                }
                let permissioned = if perm == 3 { !self.r.chance(1, 10) } else { perm > 0 && self.r.chance(1, 15) || self.r.chance(1, 60) };
                let args = if permissioned { Args::ConsumeP { limit } } else { Args::Consume { limit } };
                let mut op = self.d.op(m, args, &user, &oo);
                if permissioned && perm < 3 {
                    op.set("auth", "X");
                }
                for n in self.crank_accounts(m) {
                    op.roles.push(("oos", n));
                }
                op
            }
            8 => self.d.op(m, Args::Sweep, &user, &oo),
            9 => {
                let mut op = self.d.op(m, Args::Close, &user, &oo);
                if self.r.chance(1, 3) {
                    op.set("dest", "X");
                }
                op
            }
            10 => {
                let mut op = self.d.op(m, Args::InitOo, &user, &oo);
                if perm > 0 && self.r.chance(1, 6) {
                    op.roles.retain(|x| x.0 != "auth");
                } else if perm == 0 && self.r.chance(1, 6) {
                    op.roles.push(("auth", "X".into()));
                }
                op
            }
            11 => {
                let limit = match self.r.below(5) {
                    0 => 65535,
                    1 => self.r.below(4) as u16,
                    4 => self.r.below(3) as u16 + (1 << 8 << self.r.below(8)),
                    2 => {
                        // just about the number of nodes of the two trees
                        let q = &self.d.obs.mk[&mn];
                        let n = (2 * q.bids.len()).saturating_sub(1) + (2 * q.asks.len()).saturating_sub(1);
                        (n as u64 + self.r.below(3)).saturating_sub(1) as u16
                    }
                    _ => self.r.below(60) as u16,
                };
                let mut op = self.d.op(m, Args::Prune { limit }, &user, &oo);
                if perm < 2 {
                    op.set("auth", "X");
                }
                op
            }
            _ => {
                let mut op = self.d.op(m, Args::Disable, &user, &oo);
                if self.d.lines * 10 < self.total * 4 || self.r.chance(1, 2) {
                    let w = if self.r.chance(1, 2) { "X" } else { "SWP" };
                    op.set("auth", w);
                }
                op
            }
        }
    }
    /// minimum proceeds at the edge of what the swap yields
    fn edge_take(&mut self, m: usize, op: &mut Op) {
        let (cw, pw, lot) = (op.get("cw").to_string(), op.get("pw").to_string(), self.p.cfg.markets[m].coin_lot);
        let mut free = op.clone();
        if let Args::Take { min_coin, min_pc, .. } = &mut free.args { *min_coin = 0; *min_pc = 0 }
        let got = self.d.probe(&free, |a, b| (b.tok[&cw].saturating_sub(a.tok[&cw]) / lot.max(1), b.tok[&pw].saturating_sub(a.tok[&pw])));
        let (c, p) = match got { Some(x) => x, None => return };
        let near = |r: &mut Rng, v: u64| match r.below(8) { 0 => v.saturating_sub(1), 1 | 2 => v, 3 | 4 => v + 1, 5 => v + r.below(v / 2000 + 2), 6 => v + r.below(v / 10000 + 2), _ => v + r.below(v / 100 + 2) };
        let (nc, np) = (near(&mut self.r, c), near(&mut self.r, p));
        if let Args::Take { side, min_coin, min_pc, .. } = &mut op.args {
            if *side == Side::Bid { *min_coin = nc } else { *min_pc = np }
        }
    }
    /// a budget at the edge of what the bid costs
    fn edge_bid(&mut self, m: usize, op: &mut Op) {
        let (payer, oo) = (op.get("payer").to_string(), op.get("oo").to_string());
        let free = self.d.obs.oo.get(&oo).map_or(0, |o| o.pf);
        let _ = m;
        let paid = self.d.probe(op, |a, b| a.tok.get(&payer).map_or(0, |x| x.saturating_sub(b.tok[&payer])));
        let need = match paid { Some(x) if x > 0 => x + free, _ => return };
        let v = match self.r.below(6) { 0 | 1 => need, 2 | 3 => need - 1, 4 => need + 1, _ => need - self.r.below(need / 1000 + 2).min(need - 1) };
        if let Args::New(o) = &mut op.args { o.pc = v.max(1) }
    }
    fn pick_order(&mut self, m: usize, oo: &str) -> (Side, u128) {
        let mn = Dex::mname(m);
        let mut v: Vec<(Side, u128)> = vec![];
        match self.r.below(12) {
            0 => {
                // any order in the book
                for o in &self.d.obs.mk[&mn].bids { v.push((Side::Bid, o.id)) }
                for o in &self.d.obs.mk[&mn].asks { v.push((Side::Ask, o.id)) }
            }
            1 => {
                return (if self.r.chance(1, 2) { Side::Bid } else { Side::Ask }, ((self.p.mid as u128) << 64) | self.r.below(50) as u128);
            }
            2 => {
                // right id, wrong side
                if let Some(o) = self.d.obs.oo.get(oo) {
                    for s in &o.slots { v.push((if s.2 { Side::Ask } else { Side::Bid }, s.1)) }
                }
            }
            _ => {
                if let Some(o) = self.d.obs.oo.get(oo) {
                    for s in &o.slots { v.push((if s.2 { Side::Bid } else { Side::Ask }, s.1)) }
                }
            }
        }
        if v.is_empty() { (Side::Bid, (5u128 << 64) | 77) } else { *self.r.pick(&v) }
    }
    /// turn a legitimate instruction into one that may have to be refused
    fn corrupt(&mut self, op: &mut Op) {
        let signers: Vec<&'static str> = op.roles.iter().map(|r| r.0).filter(|r| *r == "owner" || *r == "auth").collect();
        if !signers.is_empty() && self.r.chance(1, 4) {
            { let s: &'static str = *self.r.pick(&signers); op.unsign.push(s); }
            op.note = "unsigned";
            return;
        }
        let roles: Vec<&'static str> = op.roles.iter().map(|r| r.0).filter(|r| !["x1", "x2", "rent"].contains(r)).collect();
        let role = *self.r.pick(&roles);
        let cur = op.get(role).to_string();
        let mut cand: Vec<String> = vec![];
        let nmk = self.p.cfg.markets.len();
        let other = |d: &Dex, s: &str, cand: &mut Vec<String>| {
            for i in 1..=nmk {
                let n = format!("M{}{}", i, s);
                if d.w.by_name.contains_key(&n) { cand.push(n) }
            }
        };
        // look-alikes of the very account that is replaced, with its present content
        if ["market", "rq", "eq", "bids", "asks", "cv", "pv", "disc"].contains(&role) && self.d.w.by_name.contains_key(&format!("fake.{}", cur)) {
            let salt = self.salt;
            let f = self.d.twin("fake", &cur, salt);
            for _ in 0..2 { cand.push(f.clone()) }
            let c = format!("copy.{}", cur);
            if self.d.w.by_name.contains_key(&c) {
                if role != "cv" && role != "pv" { self.d.twin("copy", &cur, salt); }
                for _ in 0..2 { cand.push(c.clone()) }
            }
        }
        match role {
            "market" => { other(&self.d, "", &mut cand); cand.push("M1.bids".into()); }
            "rq" => { other(&self.d, ".rq", &mut cand); other(&self.d, ".eq", &mut cand); }
            "eq" => { other(&self.d, ".eq", &mut cand); other(&self.d, ".rq", &mut cand); }
            "bids" => { other(&self.d, ".bids", &mut cand); other(&self.d, ".asks", &mut cand); }
            "asks" => { other(&self.d, ".asks", &mut cand); other(&self.d, ".bids", &mut cand); }
            "cv" => { other(&self.d, ".cv", &mut cand); other(&self.d, ".pv", &mut cand); cand.push("U1.0".into()); }
            "pv" => { other(&self.d, ".pv", &mut cand); other(&self.d, ".cv", &mut cand); cand.push("U1.1".into()); }
            "vs" => { other(&self.d, ".vs", &mut cand); cand.push("X".into()); cand.push("U1".into()); }
            "spl" => { cand.push("EVIL".into()); cand.push("sys".into()); }
            "payer" | "cw" | "pw" | "dst" | "ref" | "disc" => {
                cand = self.d.toks.clone();
                cand.push("fake.U1.0".into());
                cand.push("fake.U1.1".into());
                cand.push("fake.uninit".into());
                if role == "disc" { for i in 0..self.p.cfg.discounts.len() { cand.push(format!("fake.D{}", i)) } }
                for n in self.d.toks.iter().filter(|n| n.starts_with("U1")) { cand.push(format!("fake.frz.{}", n)) }
            }
            "owner" => { for u in 1..=self.p.cfg.users { cand.push(format!("U{}", u)) } cand.push("X".into()); }
            "ooowner" => { for u in 1..=self.p.cfg.users { cand.push(format!("U{}", u)) } }
            "oo" => {
                cand = self.d.oos.clone();
                if self.d.w.by_name.contains_key("EVIL") && self.d.w.by_name.contains_key(&cur) {
                    let salt = self.salt;
                    cand.push(self.d.fake_oo(&cur, salt));
                    let f = cand.last().unwrap().clone();
                    for _ in 0..4 { cand.push(f.clone()) }
                }
            }
            "oos" => {
                let v: Vec<String> = self.d.oos.clone();
                cand.push(self.r.pick(&v).clone());
            }
            "auth" => {
                for n in ["X", "U1", "DIS", "SWP"].iter() { cand.push(n.to_string()) }
                for s in [".ooa", ".pra", ".cra"].iter() { other(&self.d, s, &mut cand) }
            }
            "dest" => { cand.push("X".into()); cand.push("U1".into()); }
            _ => {}
        }
        cand.retain(|c| self.d.w.by_name.contains_key(c) && *c != cur);
        if !cand.is_empty() {
            let n = self.r.pick(&cand).clone();
            op.set(role, &n);
            op.note = "substituted";
        }
    }
    pub fn step(&mut self) {
        if self.r.chance(1, 25) {
            self.d.w.clock += self.r.below(5) as i64;
        }
        if self.p.donate > 0 && self.r.chance(self.p.donate, 100) {
            let m = self.market();
            let t = format!("{}{}", Dex::mname(m), if self.r.chance(1, 2) { ".cv" } else { ".pv" });
            let a = self.r.range(1, 1000);
            self.d.donate(&t, a);
            return;
        }
        if self.r.chance(1, 15) {
            let v: Vec<String> = self.d.obs.oo.iter().filter(|x| x.1.flags == 256).map(|x| x.0.clone()).collect();
            if !v.is_empty() {
                let n = self.r.pick(&v).clone();
                self.d.recreate(&n);
                return;
            }
        }
        if self.p.scene == 1000 {
            return self.fee_scene();
        }
        if self.p.scene > 0 && self.r.chance(self.p.scene, 100) {
            self.early_settle();
            return;
        }
        let mut op = self.random_op();
        if self.d.lines > self.total / 8 && self.r.chance(self.p.adv, 100) {
            self.corrupt(&mut op);
        }
        self.d.exec(&op);
    }
    /// A sweep over one kind of instruction: legitimate once, then every single-account substitution and every
    /// missing signature of the same instruction.
    pub fn audit(&mut self) {
        let op = self.random_op();
        let mut variants: Vec<Op> = vec![];
        for _ in 0..5 {
            let mut o = op.clone();
            self.corrupt(&mut o);
            variants.push(o);
        }
        for v in variants {
            self.d.exec(&v);
        }
        self.d.exec(&op);
    }
    fn crank_some(&mut self, m: usize) {
        let mn = Dex::mname(m);
        let mut guard = 0;
        while self.d.obs.mk[&mn].q.count > 0 && guard < 600 {
            guard += 1;
            let perm = self.p.cfg.markets[m].perm;
            let args = if perm == 3 { Args::ConsumeP { limit: 50 } } else { Args::Consume { limit: 50 } };
            let mut op = self.d.op(m, args, "U1", "");
            let mut v: Vec<String> = vec![];
            for e in self.d.obs.mk[&mn].q.ev.iter().take(60) {
                if let Some(n) = self.d.names.get(&e.owner) {
                    if !v.contains(n) { v.push(n.clone()) }
                }
            }
            v.truncate(20);
            v.sort_by_key(|n| self.d.key_words(n));
            if v.is_empty() { return }
            for n in v { op.roles.push(("oos", n)) }
            let before = self.d.obs.mk[&mn].q.count;
            self.d.exec(&op);
            if self.d.obs.mk[&mn].q.count == before { return }
        }
    }
    /// A taker settles before its fills are cranked, so that all it is left with is a rebate, then tries to leave.
    fn early_settle(&mut self) {
        let m = self.market();
        let mn = Dex::mname(m);
        let u = self.user();
        let cand: Vec<String> = self.d.oos.iter().filter(|n| {
            let o = &self.d.obs.oo[*n];
            n.starts_with(&format!("O{}{}", u, m + 1)) && o.slots.is_empty() && (o.flags == 5 || o.flags == 0)
        }).cloned().collect();
        if cand.is_empty() { return self.crank_some(m) }
        let oo = self.r.pick(&cand).clone();
        let user = format!("U{}", u);
        let c = self.p.cfg.markets[m].clone();
        let side = if !self.d.obs.mk[&mn].asks.is_empty() { Side::Bid } else { Side::Ask };
        let best = match side {
            Side::Bid => self.d.obs.mk[&mn].asks.iter().map(|o| (o.price(), o.qty)).min(),
            Side::Ask => self.d.obs.mk[&mn].bids.iter().map(|o| (o.price(), o.qty)).max(),
        };
        let (price, qty) = best.unwrap_or((self.p.mid, 1));
        let qty = (qty.max(self.r.range(1, self.p.qmax))).min((self.p.cfg.coin_bal / 16 / c.coin_lot).max(1));
        let v = (qty as u128) * (price as u128) * (c.pc_lot as u128);
        let pc = (v + v / 100 + 5).min((self.p.cfg.pc_bal / 8) as u128) as u64;
        let o = NewOrder { side, price, qty, pc, ty: Ty::ImmediateOrCancel, cid: 0, stb: Stb::CancelProvide, limit: 20, max_ts: i64::MAX };
        let op = self.d.op(m, Args::New(o), &user, &oo);
        self.d.exec(&op);
        let op = self.d.op(m, Args::Settle, &user, &oo);
        self.d.exec(&op);
        let cl = self.d.op(m, Args::Close, &user, &oo);
        self.d.exec(&cl);
        self.crank_some(m);
        self.d.exec(&cl);
        if self.r.chance(1, 2) {
            let mut op = self.d.op(m, Args::Settle, &user, &oo);
            if self.r.chance(1, 2) { op.roles.push(("ref", format!("R.{}", c.pc_mint))); }
            self.d.exec(&op);
            self.d.exec(&cl);
        }
    }
    /// An amount whose fee under the given rate lies next to a rounding step.
    fn edge_amount(&mut self, k: u64, max: u64) -> u64 {
        let rate = (((k as u128) << 64) / 100_000) as u64;
        let tz = rate.trailing_zeros();
        let r = rate >> tz;
        let mut inv = 1u64;
        for _ in 0..6 {
            inv = inv.wrapping_mul(2u64.wrapping_sub(r.wrapping_mul(inv)));
        }
        let mask = if tz == 0 { u64::MAX } else { (1u64 << (64 - tz)) - 1 };
        for _ in 0..40 {
            let q = match self.r.below(6) {
                0 => self.r.logu(max),
                1 => {
                    let g = 100_000 / [1, 2, 4, 10, 100_000][self.r.below(5) as usize];
                    (self.r.logu(max) / g * g).wrapping_add(self.r.below(3)).wrapping_sub(1)
                }
                // fractional part tiny / almost one
                2 | 3 => inv.wrapping_mul(self.r.logu(1 << 20)) & mask,
                4 => inv.wrapping_mul(self.r.logu(1 << 60)) & mask,
                _ => inv.wrapping_mul(self.r.logu(1 << 40).wrapping_neg()) & mask,
            };
            if q >= 1 && q <= max {
                return q;
            }
        }
        self.r.logu(max)
    }
    /// One trade of an exactly chosen value, or bounded by an exactly chosen budget, by a taker of a random tier.
    pub fn fee_scene(&mut self) {
        let c = self.d.cfg.markets[0].clone();
        let stable = c.key.is_some();
        let n = self.r.below(self.p.cfg.discounts.len() as u64) as usize;
        let (u, ms, bal) = self.p.cfg.discounts[n];
        let k = if stable { 10 } else if ms { 30 } else {
            match bal / 1_000_000 { 0..=99 => 40, 100..=999 => 39, 1000..=9999 => 38, 10_000..=99_999 => 36, 100_000..=999_999 => 34, _ => 32 }
        };
        let sell = self.r.chance(1, 2);
        let wallet = |d: &Dex, u: usize| d.obs.tok[&format!("U{}.{}", u, if sell { 1 } else { 0 })];
        let maker = (1..=3usize).filter(|x| *x != u).max_by_key(|x| wallet(&self.d, *x)).unwrap();
        let taker_pc = self.d.obs.tok[&format!("U{}.1", u)];
        let max = wallet(&self.d, maker).min(if sell { u64::MAX } else { taker_pc / 101 * 100 });
        if max < 1000 || (sell && self.d.obs.tok[&format!("U{}.0", u)] < 10) {
            let op = self.d.op(0, Args::Sweep, "U1", "");
            self.d.exec(&op);
            return;
        }
        let q = self.edge_amount(k, max);
        let (mo, to) = (format!("O{}1a", maker), format!("O{}1a", u));
        let (mu, tu) = (format!("U{}", maker), format!("U{}", u));
        let base = NewOrder { side: Side::Bid, price: q, qty: 1, pc: q, ty: Ty::Limit, cid: 0, stb: Stb::DecrementTake, limit: 5, max_ts: i64::MAX };
        let (mk, tk) = if sell {
            (base.clone(), NewOrder { side: Side::Ask, ty: Ty::ImmediateOrCancel, pc: u64::MAX, ..base.clone() })
        } else {
            let fee = (q as u128 * k as u128 / 100_000) as u64;
            let b = q.saturating_add(fee).saturating_add(self.r.below(4)).saturating_sub(1).max(1).min(taker_pc);
            (NewOrder { side: Side::Ask, price: 1, qty: max, pc: 1, ..base.clone() }, NewOrder { price: 1, qty: max, pc: b, ty: Ty::ImmediateOrCancel, ..base.clone() })
        };
        let op = self.d.op(0, Args::New(mk), &mu, &mo);
        self.d.exec(&op);
        let mut op = if self.r.chance(1, 3) {
            self.d.op(0, Args::Take { side: tk.side, price: tk.price, qty: tk.qty, pc: tk.pc, min_coin: 0, min_pc: 0, limit: 5 }, &tu, &to)
        } else {
            self.d.op(0, Args::New(tk), &tu, &to)
        };
        op.roles.push(("disc", format!("D{}", n)));
        self.d.exec(&op);
        if let Some(o) = self.d.obs.mk["M1"].asks.get(0).cloned() {
            let op = self.d.op(0, Args::Cancel { side: Side::Ask, id: o.id }, &mu, &mo);
            self.d.exec(&op);
        }
        self.crank_some(0);
        for (x, y) in [(&mu, &mo), (&tu, &to)].iter() {
            let mut op = self.d.op(0, Args::Settle, x, y);
            if self.r.chance(1, 2) { op.roles.push(("ref", "R.1".into())); }
            self.d.exec(&op);
        }
    }
    /// Everybody leaves: cancel all, crank all, settle all, sweep, close all.
    pub fn drain(&mut self) {
        for m in 0..self.p.cfg.markets.len() {
            let mn = Dex::mname(m);
            self.crank_some(m);
            let oos: Vec<String> = self.d.oos.iter().filter(|n| {
                let o = &self.d.obs.oo[*n];
                o.flags == 5 && self.d.names.get(&o.market) == Some(&mn)
            }).cloned().collect();
            for oo in &oos {
                let owner = self.d.names.get(&self.d.obs.oo[oo].owner).cloned().unwrap_or("X".into());
                let mut guard = 0;
                loop {
                    guard += 1;
                    let o = self.d.obs.oo[oo].clone();
                    let mo = &self.d.obs.mk[&mn];
                    let key = self.d.w.key(oo).to_bytes();
                    let next = mo.bids.iter().find(|x| x.owner == key).map(|x| (Side::Bid, x.id))
                        .or(mo.asks.iter().find(|x| x.owner == key).map(|x| (Side::Ask, x.id)));
                    let (side, id) = match next { None => break, Some(x) => x };
                    // batch where a client id allows it
                    let cids: Vec<u64> = o.slots.iter().filter(|s| s.3 != 0).map(|s| s.3).collect();
                    let has = o.slots.iter().any(|s| s.1 == id && s.3 != 0);
                    if mo.q.count + 20 > mo.q.cap { self.crank_some(m) }
                    let r = if has && self.r.chance(1, 2) {
                        let mut c: Vec<u64> = o.slots.iter().filter(|s| s.1 == id).map(|s| s.3).collect();
                        for x in cids.iter().take(7) { if !c.contains(x) { c.push(*x) } }
                        let op = self.d.op(m, Args::CancelB { cids: c }, &owner, oo);
                        self.d.exec(&op)
                    } else {
                        let op = self.d.op(m, Args::Cancel { side, id }, &owner, oo);
                        self.d.exec(&op)
                    };
                    if r != Outcome::Ok && guard > 300 { break }
                    if guard > 600 { break }
                }
            }
            self.crank_some(m);
            for oo in &oos {
                let owner = self.d.names.get(&self.d.obs.oo[oo].owner).cloned().unwrap_or("X".into());
                let mut op = self.d.op(m, Args::Settle, &owner, oo);
                if self.r.chance(1, 3) {
                    op.roles.push(("ref", format!("R.{}", self.p.cfg.markets[m].pc_mint)));
                }
                self.d.exec(&op);
            }
            let op = self.d.op(m, Args::Sweep, "U1", "");
            self.d.exec(&op);
            for oo in &oos {
                let owner = self.d.names.get(&self.d.obs.oo[oo].owner).cloned().unwrap_or("X".into());
                let op = self.d.op(m, Args::Close, &owner, oo);
                self.d.exec(&op);
            }
        }
        self.d.ext("drained");
    }
}
