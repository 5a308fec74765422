#![allow(dead_code, unused_imports)]
mod abi;
mod dex;
mod scenario;
mod world;
use dex::*;
use serum_dex::instruction::SelfTradeBehavior as Stb;
use serum_dex::matching::{OrderType as Ty, Side};
use world::Outcome;

pub fn mark(_s: &str) {}

/// A market and traders U1, U2, ... whose trading accounts are O11a, O21a, ...
pub struct T {
    pub d: Dex,
}
impl T {
    pub fn new(f: impl Fn(&mut Cfg)) -> T {
        let mut cfg = Cfg::default();
        f(&mut cfg);
        T { d: Dex::new(cfg, 7, Box::new(std::io::sink())) }
    }
    pub fn oo(u: usize) -> String {
        format!("O{}1a", u)
    }
    pub fn order(&self, u: usize, side: Side, price: u64, qty: u64) -> NewOrder {
        let pc = price * qty * self.d.cfg.markets[0].pc_lot * 2;
        let _ = u;
        NewOrder { side, price, qty, pc, ty: Ty::Limit, cid: 0, stb: Stb::DecrementTake, limit: 50, max_ts: i64::MAX }
    }
    pub fn new_op(&self, u: usize, o: NewOrder) -> Op {
        self.d.op(0, Args::New(o), &format!("U{}", u), &Self::oo(u))
    }
    pub fn try_place(&mut self, u: usize, o: NewOrder) -> Outcome {
        let op = self.new_op(u, o);
        self.d.exec(&op)
    }
    pub fn place(&mut self, u: usize, o: NewOrder) {
        let r = self.try_place(u, o);
        assert_eq!(r, Outcome::Ok);
    }
    pub fn bid(&mut self, u: usize, price: u64, qty: u64, cid: u64) {
        let mut o = self.order(u, Side::Bid, price, qty);
        o.cid = cid;
        self.place(u, o)
    }
    pub fn ask(&mut self, u: usize, price: u64, qty: u64, cid: u64) {
        let mut o = self.order(u, Side::Ask, price, qty);
        o.cid = cid;
        self.place(u, o)
    }
    pub fn run(&mut self, args: Args, u: usize) -> Outcome {
        let op = self.d.op(0, args, &format!("U{}", u), &Self::oo(u));
        self.d.exec(&op)
    }
    pub fn ok(&mut self, args: Args, u: usize) {
        let r = self.run(args, u);
        assert_eq!(r, Outcome::Ok);
    }
    pub fn crank_op(&self, n: u16) -> Op {
        let args = if self.d.cfg.markets[0].perm == 3 { Args::ConsumeP { limit: n } } else { Args::Consume { limit: n } };
        let mut op = self.d.op(0, args, "U1", "");
        let mut v: Vec<String> = (1..=self.d.cfg.users).map(Self::oo).collect();
        v.sort_by_key(|n| self.d.key_words(n));
        for n in v {
            op.roles.push(("oos", n));
        }
        op
    }
    pub fn crank(&mut self, n: u16) {
        let op = self.crank_op(n);
        let _ = self.d.exec(&op);
    }
    pub fn crank_all(&mut self) {
        while self.m().q.count > 0 {
            let op = self.crank_op(65535);
            assert_eq!(self.d.exec(&op), Outcome::Ok);
        }
    }
    pub fn m(&self) -> &MObs {
        &self.d.obs.mk["M1"]
    }
    pub fn acct(&self, u: usize) -> &abi::Oo {
        &self.d.obs.oo[&Self::oo(u)]
    }
    pub fn tok(&self, n: &str) -> u64 {
        self.d.obs.tok[n]
    }
    pub fn solvent(&self) {
        let m = &self.m().m;
        assert_eq!(self.tok("M1.cv"), m.coin_dep, "base vault vs recorded deposits");
        assert_eq!(self.tok("M1.pv"), m.pc_dep + m.pc_fees + m.rebates, "quote vault vs recorded deposits, fees and rebates");
    }
    /// locked funds of an account with an empty event queue are those of its resting orders
    pub fn backed(&self, u: usize) {
        assert_eq!(self.m().q.count, 0);
        let a = self.acct(u);
        let c = &self.d.cfg.markets[0];
        let own = Self::oo(u);
        let mine = |v: &Vec<abi::Order>| -> Vec<(u64, u64)> { v.iter().filter(|o| self.d.names[&o.owner] == own).map(|o| (o.price(), o.qty)).collect() };
        let pc: u64 = mine(&self.m().bids).iter().map(|o| o.0 * o.1 * c.pc_lot).sum();
        let coin: u64 = mine(&self.m().asks).iter().map(|o| o.1 * c.coin_lot).sum();
        assert_eq!(a.pt - a.pf, pc, "locked quote of U{}", u);
        assert_eq!(a.ct - a.cf, coin, "locked base of U{}", u);
    }
    /// everybody cancels, events are consumed, everybody settles, fees are swept: nothing may remain
    pub fn drain(&mut self) {
        for u in 1..=self.d.cfg.users {
            for side in [Side::Bid, Side::Ask].iter() {
                loop {
                    let own = Self::oo(u);
                    let v = if *side == Side::Bid { &self.m().bids } else { &self.m().asks };
                    let id = match v.iter().find(|o| self.d.names[&o.owner] == own) { Some(o) => o.id, None => break };
                    self.ok(Args::Cancel { side: *side, id }, u);
                }
            }
        }
        self.crank_all();
        for u in 1..=self.d.cfg.users {
            if self.acct(u).flags != 0 {
                self.ok(Args::Settle, u);
            }
        }
        self.ok(Args::Sweep, 1);
        assert_eq!(self.tok("M1.cv"), 0, "base vault after drain");
        assert_eq!(self.tok("M1.pv"), 0, "quote vault after drain");
        for u in 1..=self.d.cfg.users {
            let a = self.acct(u);
            assert_eq!((a.ct, a.pt, a.slots.len()), (0, 0, 0), "account of U{} after drain", u);
        }
    }
}

fn main() {
    solana_program::program_stubs::set_syscall_stubs(Box::new(world::Stubs));
    scenario::run();
    println!("held");
}
