//! Replays histories generated by TLC from the bounded model (MC.tla) on the real program, from several starting
//! situations: an untouched market, an event queue about to wrap, one about to be full, full books, full accounts.
use crate::dex::*;
use crate::world::*;
use serum_dex::instruction::SelfTradeBehavior as Stb;
use serum_dex::matching::{OrderType as Ty, Side};
use std::io::Write;

const MID: u64 = 100;

pub struct Replay {
    pub d: Dex,
    perm: u8,
    users: usize,
}

fn num(t: &str) -> u64 {
    t.parse().unwrap_or_else(|_| panic!("bad script number {}", t))
}

struct Toks<'a>(std::str::SplitWhitespace<'a>);
impl<'a> Toks<'a> {
    fn s(&mut self) -> &'a str {
        self.0.next().expect("script ends early")
    }
    fn n(&mut self) -> u64 {
        num(self.s())
    }
}

impl Replay {
    pub fn new(kind: &str, perm: u8, out: Box<dyn Write>) -> Self {
        let mut cfg = Cfg::default();
        cfg.users = 4;
        cfg.markets[0].perm = perm;
        cfg.markets[0].coin_lot = 10;
        cfg.markets[0].pc_lot = 50_000;
        cfg.markets[0].eq_len = 128;
        cfg.markets[0].nodes = 201;
        let mut r = Replay { d: Dex::new(cfg, 77, out), perm, users: 3 };
        match kind {
            "fresh" => {}
            "ring" => r.spin(125),
            "wrap" => r.spin(127),
            "nearfull" => r.fill_queue(8),
            "full" => r.fill_queue(3),
            "books" => r.fill_books(0),
            "slots" => r.fill_books(1),
            "upper" => r.upper(),
            "jam" => r.jam(),
            "rested" => r.rest_orders(),
            _ => panic!("unknown start {}", kind),
        }
        r
    }
    fn oo(u: u64) -> String {
        format!("O{}1a", u)
    }
    /// silently bring the market into its starting situation
    fn quiet(&mut self, op: &Op) {
        if self.d.exec_quiet(op) != Outcome::Ok {
            panic!("preparing the starting situation failed: {:?}", op.args)
        }
    }
    fn open(&mut self, u: u64) {
        if self.perm > 0 && self.d.obs.oo[&Self::oo(u)].flags == 0 {
            let op = self.d.op(0, Args::InitOo, &format!("U{}", u), &Self::oo(u));
            self.quiet(&op);
        }
    }
    fn order(&mut self, u: u64, side: Side, price: u64, qty: u64, ty: Ty, cid: u64) {
        self.open(u);
        let c = &self.d.cfg.markets[0];
        let pc = price * qty * c.pc_lot * 2;
        let o = NewOrder { side, price, qty, pc, ty, cid, stb: Stb::DecrementTake, limit: 10, max_ts: i64::MAX };
        let op = self.d.op(0, Args::New(o), &format!("U{}", u), &Self::oo(u));
        self.quiet(&op);
    }
    fn crank(&mut self, n: u16, who: &[u64]) {
        let args = if self.perm == 3 { Args::ConsumeP { limit: n } } else { Args::Consume { limit: n } };
        let mut op = self.d.op(0, args, "U1", "");
        let mut v: Vec<String> = who.iter().map(|u| Self::oo(*u)).collect();
        v.sort_by_key(|n| self.d.key_words(n));
        for n in v {
            op.roles.push(("oos", n));
        }
        self.quiet(&op);
    }
    /// an empty queue whose head has moved to position n
    fn spin(&mut self, n: u64) {
        while self.d.obs.mk["M1"].q.head < n {
            // an IOC order with nothing to match leaves exactly one event
            self.order(4, Side::Ask, 900, 1, Ty::ImmediateOrCancel, 0);
            self.crank(65535, &[4]);
        }
    }
    /// all but `free` places of the queue are taken by events of trader 4
    fn fill_queue(&mut self, free: u64) {
        self.spin(100);
        while self.d.obs.mk["M1"].q.cap - self.d.obs.mk["M1"].q.count > free {
            self.order(4, Side::Ask, 900, 1, Ty::ImmediateOrCancel, 0);
        }
    }
    /// both books full (of trader 4, or of traders 1 and 2) away from the market
    fn fill_books(&mut self, own: u64) {
        let cap = 101u64;
        for i in 0..cap {
            let (a, b) = if own == 0 { (4, 3) } else { (1, 2) };
            self.order(a, Side::Bid, 10 + i % 40, 1 + i % 3, Ty::Limit, 0);
            self.order(b, Side::Ask, 500 + i % 40, 1 + i % 3, Ty::Limit, 0);
            self.crank(65535, &[a, b]);
        }
        if own == 1 {
            for i in 0..26 {
                // the rest of each account's slots: orders whose events are still queued
                for u in [1u64, 2].iter() {
                    if self.d.obs.oo[&Self::oo(*u)].slots.len() < 127 {
                        let side = if *u == 1 { Side::Ask } else { Side::Bid };
                        let p = if *u == 1 { 900 - i } else { 5 };
                        self.order(*u, side, p, 1, Ty::ImmediateOrCancel, 0);
                    }
                }
            }
        }
    }
    /// traders 1 and 2 with nothing left but high slots whose events still wait in the queue
    fn upper(&mut self) {
        let cancel = |r: &mut Self, u: u64, upper: bool| {
            let oo = Self::oo(u);
            let ids: Vec<u128> = r.d.obs.oo[&oo].slots.iter().filter(|s| (s.0 >= 64) == upper).map(|s| s.1).collect();
            for id in ids {
                let op = r.d.op(0, Args::Cancel { side: Side::Ask, id }, &format!("U{}", u), &oo);
                r.quiet(&op);
            }
        };
        for u in [1u64, 2].iter() {
            for i in 0..64 + u { self.order(*u, Side::Ask, 600 + i, 1, Ty::Limit, 0) }
            cancel(self, *u, false);
            self.crank(65535, &[1, 2]);
        }
        for u in [1u64, 2].iter() {
            cancel(self, *u, true);
            let op = self.d.op(0, Args::Settle, &format!("U{}", u), &Self::oo(*u));
            self.quiet(&op);
        }
    }
    /// both books full and room for two more events only
    fn jam(&mut self) {
        self.fill_books(0);
        let mut i = 0;
        while self.d.obs.mk["M1"].q.cap - self.d.obs.mk["M1"].q.count > 2 {
            i += 1;
            let u = if i <= 15 { 4 } else if i <= 30 { 3 } else { 1 + i % 2 };
            self.order(u, Side::Ask, 900, 1, Ty::ImmediateOrCancel, 0);
        }
    }
    /// a few resting orders of trader 3 around the market, free funds in the accounts of 1 and 2
    fn rest_orders(&mut self) {
        self.order(3, Side::Bid, MID, 2, Ty::Limit, 1);
        self.order(3, Side::Ask, MID + 3, 2, Ty::Limit, 2);
        for u in [1u64, 2].iter() {
            self.order(*u, Side::Bid, MID, 1, Ty::ImmediateOrCancel, 0);
            self.order(*u, Side::Ask, MID + 3, 3, Ty::ImmediateOrCancel, 0);
        }
        self.crank(65535, &[1, 2, 3]);
    }

    fn parse_order(&self, t: &mut Toks) -> NewOrder {
        let side = if t.s() == "bid" { Side::Bid } else { Side::Ask };
        let price = MID + t.n();
        let qty = t.n();
        let ty = match t.s() { "limit" => Ty::Limit, "ioc" => Ty::ImmediateOrCancel, "post" => Ty::PostOnly, x => panic!("type {}", x) };
        let stb = match t.s() { "dec" => Stb::DecrementTake, "cxl" => Stb::CancelProvide, "abort" => Stb::AbortTransaction, x => panic!("stb {}", x) };
        let limit = t.n() as u16;
        let v = price * qty * self.d.cfg.markets[0].pc_lot;
        let fee = (v * 40 + 99_999) / 100_000;
        let pc = match t.s() { "exact" => v + fee, "nofee" => v, "short" => v + fee - 1, "rich" => 2 * v + 7, "one" => 1, x => panic!("budget {}", x) };
        let cid = t.n();
        let now = self.d.w.clock;
        let max_ts = match t.s() { "none" => i64::MAX, "now" => now, "past" => now - 1, x => panic!("ts {}", x) };
        NewOrder { side, price, qty, pc, ty, cid, stb, limit, max_ts }
    }
    fn accounts(&mut self, op: &mut Op, who: &str) {
        let mut v: Vec<String> = who.split(',').map(|u| Self::oo(num(u))).collect();
        // the accounts of whoever else waits in the queue come along when everybody does
        if v.len() >= 2 {
            for u in 1..=4u64 {
                if !v.contains(&Self::oo(u)) { v.push(Self::oo(u)) }
            }
        }
        v.sort_by_key(|n| self.d.key_words(n));
        for n in v {
            op.roles.push(("oos", n));
        }
    }
    pub fn step(&mut self, s: &str) {
        let mut t = Toks(s.split_whitespace());
        let kind = t.s();
        let mut op;
        match kind {
            "new" => {
                let u = t.n();
                let o = self.parse_order(&mut t);
                op = self.d.op(0, Args::New(o), &format!("U{}", u), &Self::oo(u));
            }
            "take" => {
                let u = t.n();
                let o = self.parse_order(&mut t);
                let min = t.n();
                let pl = self.d.cfg.markets[0].pc_lot;
                let a = Args::Take { side: o.side, price: o.price, qty: o.qty, pc: o.pc, min_coin: min * o.qty, min_pc: min * o.qty * o.price * pl, limit: o.limit };
                op = self.d.op(0, a, &format!("U{}", u), "");
            }
            "replace" => {
                let u = t.n();
                let n = t.n();
                let v: Vec<NewOrder> = (0..n).map(|_| self.parse_order(&mut t)).collect();
                op = self.d.op(0, Args::Replace(v, n == 1), &format!("U{}", u), &Self::oo(u));
            }
            "cancel" => {
                let u = t.n();
                let n = t.n();
                let oo = Self::oo(u);
                let (side, id) = match self.d.obs.oo[&oo].slots.iter().find(|s| s.0 as u64 == n) {
                    Some(s) => (if s.2 { Side::Bid } else { Side::Ask }, s.1),
                    None => (Side::Bid, 5u128 << 64 | 9),
                };
                op = self.d.op(0, Args::Cancel { side, id }, &format!("U{}", u), &oo);
            }
            "cancelc" => {
                let u = t.n();
                let cid = t.n();
                op = self.d.op(0, Args::CancelC { cid }, &format!("U{}", u), &Self::oo(u));
            }
            "cancelb" => {
                let u = t.n();
                let cids = t.s().split(',').map(num).collect();
                op = self.d.op(0, Args::CancelB { cids }, &format!("U{}", u), &Self::oo(u));
            }
            "settle" => {
                let u = t.n();
                op = self.d.op(0, Args::Settle, &format!("U{}", u), &Self::oo(u));
                if t.s() == "true" {
                    op.roles.push(("ref", "R.1".into()));
                }
            }
            "consume" => {
                let limit = t.n() as u16;
                let who = t.s().to_string();
                op = self.d.op(0, Args::Consume { limit }, "U1", "");
                self.accounts(&mut op, &who);
            }
            "consumep" => {
                let limit = t.n() as u16;
                let who = t.s().to_string();
                op = self.d.op(0, Args::ConsumeP { limit }, "U1", "");
                if t.s() != "cra" || self.perm < 3 {
                    op.set("auth", "X");
                }
                self.accounts(&mut op, &who);
            }
            "sweep" => op = self.d.op(0, Args::Sweep, "U1", ""),
            "disable" => op = self.d.op(0, Args::Disable, "U1", ""),
            "close" => {
                let u = t.n();
                op = self.d.op(0, Args::Close, &format!("U{}", u), &Self::oo(u));
            }
            "initoo" => {
                let u = t.n();
                op = self.d.op(0, Args::InitOo, &format!("U{}", u), &Self::oo(u));
                op.roles.retain(|r| r.0 != "auth");
                if t.s() != "none" {
                    op.roles.push(("auth", if self.perm > 0 { "M1.ooa".into() } else { "X".into() }));
                }
            }
            "prune" => {
                let u = t.n();
                let limit = t.n() as u16;
                op = self.d.op(0, Args::Prune { limit }, &format!("U{}", u), &Self::oo(u));
                if self.perm < 2 {
                    op.set("auth", "X");
                }
            }
            "recreate" => {
                let u = t.n();
                if self.d.obs.oo[&Self::oo(u)].flags == 256 {
                    self.d.recreate(&Self::oo(u));
                }
                return;
            }
            x => panic!("script step {}", x),
        }
        self.d.exec(&op);
    }
    pub fn run(&mut self, scripts: &str) {
        let _ = self.users;
        let accs = self.d.w.accs.clone();
        let obs = self.d.obs.clone();
        self.d.emit_base();
        let at = self.d.emitted;
        for line in scripts.lines() {
            self.d.w.accs = accs.clone();
            self.d.obs = obs.clone();
            self.d.emit_reset(at);
            for s in line.split(';') {
                if !s.trim().is_empty() {
                    self.step(s);
                }
            }
        }
    }
}
