//! The command-line client at work: every operation is asked of the real client code, which talks to the
//! stand-in cluster; the request, the outcome and what changed on chain make one line of the history.
use crate::abi;
use crate::dex::{rent, side_s, Args, Cfg, Dex, MktCfg, NewOrder, Op};
use crate::rpc::{keypair, Net};
use crate::world::{Data, Outcome, Rng};
use crank::{Command, MarketPubkeys, Opts};
use serde_json::json;
use serum_common::client::Cluster;
use serum_dex::instruction::{MarketInstruction, NewOrderInstructionV3, SelfTradeBehavior};
use serum_dex::matching::{OrderType, Side};
use solana_sdk::instruction::Instruction;
use solana_sdk::pubkey::Pubkey;
use solana_sdk::signature::{Keypair, Signer};
use solana_sdk::transaction::Transaction;
use std::fmt::Write as _;
use std::fs::File;
use std::io::{BufWriter, Write};
use std::num::NonZeroU64;
use std::time::Duration;

pub struct Ck {
    d: Dex,
    net: Net,
    r: Rng,
    out: String,
    cid: u64,
    files: Vec<String>,
}

fn words(d: &[u8], i: usize) -> u64 {
    abi::u64at(d, 5 + 8 * i)
}
fn key4(d: &[u8], i: usize) -> Pubkey {
    Pubkey::new(&d[5 + 8 * i..5 + 8 * i + 32])
}

impl Ck {
    /// listed: the market is made by the client too
    fn new(cfg: Cfg, listed: bool, seed: u64, out: &str) -> Self {
        let f = BufWriter::new(File::create(out).unwrap());
        let mut net = Net::new();
        let mut lines = vec![];
        let salt = seed.wrapping_mul(0x9E3779B97F4A7C15);
        let d = Dex::with(cfg, salt, Box::new(f), &mut |d, i, c| {
            let users: Vec<String> = d.w.accs.iter().filter(|a| a.name.starts_with('U')).map(|a| a.name.clone()).collect();
            for u in users {
                let x = d.w.idx(&u);
                d.w.accs[x].lamports = 1_000_000_000_000;
            }
            let x = d.w.idx("rent");
            d.w.accs[x].data = Data::from(&bincode::serialize(&solana_sdk::rent::Rent::default()).unwrap());
            if !listed {
                return d.make_market(i, c, salt);
            }
            lines.push(list(d, &mut net, i, c, salt));
        });
        let mut c = Ck { d, net, r: Rng(seed ^ 0xC0FFEE), out: out.into(), cid: 0, files: vec![] };
        for l in lines {
            c.d.emit(&l);
        }
        c
    }
    fn keys(&self, m: usize) -> MarketPubkeys {
        let k = |s: &str| Box::new(self.d.w.key(&format!("M{}{}", m + 1, s)));
        MarketPubkeys {
            market: k(""), req_q: k(".rq"), event_q: k(".eq"), bids: k(".bids"), asks: k(".asks"), coin_vault: k(".cv"), pc_vault: k(".pv"),
            vault_signer_key: k(".vs"),
        }
    }
    fn user(&self, u: &str) -> Keypair {
        keypair(&self.d.w.key(u))
    }
    /// the user's key as the command line wants it
    fn file(&mut self, u: &str) -> String {
        let p = format!("{}.{}.json", self.out, u);
        if !self.files.contains(&p) {
            let b: Vec<String> = self.user(u).to_bytes().iter().map(|b| b.to_string()).collect();
            std::fs::write(&p, format!("[{}]", b.join(","))).unwrap();
            self.files.push(p.clone());
        }
        p
    }
    fn opts(&self, command: Command) -> Opts {
        Opts { cluster: Cluster::Custom(self.net.url.clone()), command }
    }
    /// one request to the client, recorded
    fn ask<T: Send + 'static>(
        &mut self, op: &Op, via: &str, sig: &[String], f: impl FnOnce(&solana_client::rpc_client::RpcClient) -> Result<T, String> + Send + 'static,
    ) -> Option<T> {
        let net = &mut self.net;
        let mut val = None;
        let v = &mut val;
        self.d.record(op, sig, |d, s| {
            let r = net.client(d, f);
            let made: Vec<String> = net
                .made
                .iter()
                .map(|m| format!("{{\"n\":\"{}\",\"space\":{},\"lam\":\"{}\",\"own\":\"{}\"}}", m.name, m.space, m.lam, owner_s(d, &m.own)))
                .collect();
            let _ = write!(s, ",\"via\":\"{}\",\"tx\":{{\"ok\":{},\"bad\":{},\"big\":{}}},\"made\":[{}]", via, net.sent, net.failed, net.toobig, made.join(","));
            match r {
                None => Outcome::Err("the client panicked".into()),
                Some(Err(e)) => Outcome::Err(e),
                Some(Ok(x)) => {
                    *v = Some(x);
                    Outcome::Ok
                }
            }
        });
        val
    }
    fn nz(x: u64) -> NonZeroU64 {
        NonZeroU64::new(x.max(1)).unwrap()
    }
    fn place(&mut self, m: usize, u: &str, wallet: &str, oo: Option<String>, o: NewOrder) {
        // a new account is one of the user's unused ones
        let name = match oo.clone().or_else(|| self.spare(u, m)) {
            Some(n) => n,
            None => return,
        };
        let mut op = self.d.op(m, Args::New(o.clone()), u, &name);
        op.set("payer", wallet);
        let (pid, kp, st, w) = (self.d.pid, self.user(u), self.keys(m), self.d.w.key(wallet));
        let mut ok = oo.map(|n| self.d.w.key(&n));
        self.ask(&op, "C34", &[u.to_string()], move |c| {
            let ins = NewOrderInstructionV3 {
                side: o.side, limit_price: Self::nz(o.price), max_coin_qty: Self::nz(o.qty), max_native_pc_qty_including_fees: Self::nz(o.pc),
                self_trade_behavior: o.stb, order_type: o.ty, client_order_id: o.cid, limit: o.limit, max_ts: o.max_ts,
            };
            crank::place_order(c, &pid, &kp, &w, &st, &mut ok, ins).map_err(|e| e.to_string())
        });
    }
    fn spare(&self, u: &str, m: usize) -> Option<String> {
        let pre = format!("O{}{}", &u[1..], m + 1);
        self.d
            .oos
            .iter()
            .find(|n| {
                n.starts_with(&pre) && self.d.w.accs[self.d.w.idx(n)].data.bytes().iter().all(|b| *b == 0)
                    && crate::rpc::SEEDS.with(|s| s.borrow().contains_key(&self.d.w.key(n)))
            })
            .cloned()
    }
    fn live(&mut self, u: &str, m: usize) -> Option<String> {
        let pre = format!("O{}{}", &u[1..], m + 1);
        let v: Vec<String> =
            self.d.oos.iter().filter(|n| n.starts_with(&pre) && self.d.obs.oo[*n].flags & 1 != 0).cloned().collect();
        if v.is_empty() { None } else { Some(self.r.pick(&v).clone()) }
    }
    fn some_order(&mut self, m: usize) -> NewOrder {
        let c = self.d.cfg.markets[m].clone();
        let r = &mut self.r;
        self.cid += 1;
        let side = if r.chance(1, 2) { Side::Bid } else { Side::Ask };
        let price = 95 + r.below(11);
        let qty = 1 + r.below(6);
        let full = price * qty * c.pc_lot;
        NewOrder {
            side,
            price,
            qty,
            pc: if side == Side::Ask { u64::MAX } else { *r.pick(&[full + full / 100 + 10, full, u64::MAX / 4, full / 2 + 1]) },
            ty: *r.pick(&[OrderType::Limit, OrderType::Limit, OrderType::PostOnly, OrderType::ImmediateOrCancel]),
            cid: if r.chance(1, 12) { 0 } else { self.cid },
            stb: *r.pick(&[SelfTradeBehavior::DecrementTake, SelfTradeBehavior::CancelProvide, SelfTradeBehavior::AbortTransaction]),
            limit: *r.pick(&[65535, 65535, 1, 0, 3]),
            max_ts: *r.pick(&[i64::MAX, i64::MAX, i64::MAX, self.d.w.clock, self.d.w.clock - 1]),
        }
    }

    // ---- requests at random ----
    fn step(&mut self) {
        let m = self.r.below(self.d.cfg.markets.len() as u64) as usize;
        let n = self.d.cfg.users as u64;
        let u = format!("U{}", 1 + self.r.below(n));
        let c = self.d.cfg.markets[m].clone();
        let (cw, pw) = (format!("{}.{}", u, c.coin_mint), format!("{}.{}", u, c.pc_mint));
        let oo = self.live(&u, m);
        let mut any = oo.clone();
        if self.r.chance(1, 12) {
            // somebody else's account
            let v = format!("U{}", 1 + self.r.below(n));
            any = self.live(&v, m).or(any);
        }
        match self.r.below(100) {
            0..=44 => {
                let o = self.some_order(m);
                let mut wallet = if o.side == Side::Bid { pw } else { cw };
                if self.r.chance(1, 20) {
                    wallet = format!("U{}.{}", 1 + self.r.below(n), self.r.below(2));
                }
                let acc = if self.r.chance(1, 8) { None } else { any };
                self.place(m, &u, &wallet, acc, o);
            }
            45..=49 => {
                let given = if self.r.chance(1, 3) { oo } else { None };
                self.init_oo(m, &u, given);
            }
            50..=57 => {
                if let Some(o) = any {
                    let cid = self.known_cid(&o);
                    self.cancel(m, &u, &o, cid);
                }
            }
            58..=63 => {
                if let Some(o) = any {
                    let mut v = [0u64; 8];
                    for x in v.iter_mut() {
                        *x = if self.r.chance(1, 3) { 0 } else { self.known_cid(&o) };
                    }
                    self.cancel_all(m, &u, &o, v);
                }
            }
            64..=75 => {
                if let Some(o) = any {
                    let with = self.r.chance(1, 2);
                    self.settle(m, &u, &o, &cw, &pw, with);
                }
            }
            76..=80 => {
                if let Some(o) = any {
                    self.close(m, &u, &o);
                }
            }
            81..=82 => self.matching(m, &u, &cw, &pw),
            83 => self.print_queue(m),
            84..=86 => {
                self.d.w.clock += 1;
            }
            _ => {
                self.crank(m, &cw, &pw);
            }
        }
    }
    fn known_cid(&mut self, oo: &str) -> u64 {
        let mut v: Vec<u64> = vec![];
        for m in self.d.obs.mk.values() {
            let k = self.d.w.key(oo).to_bytes();
            v.extend(m.bids.iter().chain(m.asks.iter()).filter(|o| o.owner == k).map(|o| o.cid));
        }
        if v.is_empty() || self.r.chance(1, 8) { 1 + self.r.below(self.cid + 1) } else { *self.r.pick(&v) }
    }
    fn init_oo(&mut self, m: usize, u: &str, oo: Option<String>) {
        let name = match oo.clone().or_else(|| self.spare(u, m)) {
            Some(n) => n,
            None => return,
        };
        if self.d.cfg.markets[m].perm > 0 {
            return;
        }
        let op = self.d.op(m, Args::InitOo, u, &name);
        let (pid, kp, st) = (self.d.pid, self.user(u), self.keys(m));
        let mut k = oo.map(|n| self.d.w.key(&n));
        self.ask(&op, "C34", &[u.to_string()], move |c| crank::init_open_orders(c, &pid, &kp, &st, &mut k).map_err(|e| e.to_string()));
    }
    fn cancel(&mut self, m: usize, u: &str, oo: &str, cid: u64) {
        let op = self.d.op(m, Args::CancelC { cid }, u, oo);
        let (pid, kp, st, k) = (self.d.pid, self.user(u), self.keys(m), self.d.w.key(oo));
        self.ask(&op, "C34", &[u.to_string()], move |c| crank::cancel_order_by_client_order_id(c, &pid, &kp, &st, &k, cid).map_err(|e| e.to_string()));
    }
    fn cancel_all(&mut self, m: usize, u: &str, oo: &str, cids: [u64; 8]) {
        let op = self.d.op(m, Args::CancelB { cids: cids.to_vec() }, u, oo);
        let (pid, kp, st, k) = (self.d.pid, self.user(u), self.keys(m), self.d.w.key(oo));
        self.ask(&op, "C34", &[u.to_string()], move |c| crank::cancel_orders_by_client_order_ids(c, &pid, &kp, &st, &k, cids).map_err(|e| e.to_string()));
    }
    fn close(&mut self, m: usize, u: &str, oo: &str) {
        let op = self.d.op(m, Args::Close, u, oo);
        let (pid, kp, st, k) = (self.d.pid, self.user(u), self.keys(m), self.d.w.key(oo));
        self.ask(&op, "C34", &[u.to_string()], move |c| crank::close_open_orders(c, &pid, &kp, &st, &k).map_err(|e| e.to_string()));
    }
    fn settle(&mut self, m: usize, u: &str, oo: &str, cw: &str, pw: &str, signer: bool) {
        let mut op = self.d.op(m, Args::Settle, u, oo);
        op.set("cw", cw);
        op.set("pw", pw);
        // somebody else may pay for the transaction
        let payer = if signer { format!("U{}", 1 + self.r.below(self.d.cfg.users as u64)) } else { u.to_string() };
        let (pf, uf) = (self.file(&payer), self.file(u));
        let w = &self.d.w;
        let o = self.opts(Command::SettleFunds {
            payer: pf,
            dex_program_id: self.d.pid,
            market: w.key(&format!("M{}", m + 1)),
            orders: w.key(oo),
            coin_wallet: w.key(cw),
            pc_wallet: w.key(pw),
            signer: if signer { Some(uf) } else { None },
        });
        self.ask(&op, "C34", &[u.to_string()], move |_| crank::start(o).map_err(|e| e.to_string()));
    }
    fn nop(&mut self, what: &str, f: impl FnOnce(&solana_client::rpc_client::RpcClient) -> Result<(), String> + Send + 'static) {
        crate::mark(what);
        let r = self.net.client(&mut self.d, f).unwrap_or(Err("panic".into()));
        let (res, err) = match r {
            Ok(()) => ("ok", String::new()),
            Err(e) => ("err", e.replace('"', "'")),
        };
        self.d.ext(&format!("{}\",\"via\":\"C34\",\"res\":\"{}\",\"err\":\"{}", what, res, err));
    }
    fn matching(&mut self, m: usize, u: &str, cw: &str, pw: &str) {
        let (pid, kp, st, c, p) = (self.d.pid, self.user(u), self.keys(m), self.d.w.key(cw), self.d.w.key(pw));
        if self.r.chance(1, 2) {
            self.nop("match", move |cl| crank::match_orders(cl, &pid, &kp, &st, &c, &p).map_err(|e| e.to_string()));
        } else {
            let payer = self.file(u);
            let o = self.opts(Command::MatchOrders { dex_program_id: pid, payer, market: *st.market, coin_wallet: c, pc_wallet: p });
            self.nop("match", move |_| crank::start(o).map_err(|e| e.to_string()));
        }
    }
    fn print_queue(&mut self, m: usize) {
        let o = self.opts(Command::PrintEventQueue { dex_program_id: self.d.pid, market: self.d.w.key(&format!("M{}", m + 1)) });
        self.nop("print", move |_| crank::start(o).map_err(|e| e.to_string()));
    }

    // ---- cranking ----
    /// What a crank transaction says, as an operation; None if it is no crank transaction.
    fn as_consume(&self, i: &Instruction) -> Option<Op> {
        if i.program_id != self.d.pid || i.accounts.len() < 5 {
            return None;
        }
        let limit = match MarketInstruction::unpack(&i.data) {
            Some(MarketInstruction::ConsumeEvents(n)) => n,
            _ => return None,
        };
        let nm = |k: &Pubkey| self.d.names.get(&k.to_bytes()).cloned().unwrap_or_else(|| "?".into());
        let n = i.accounts.len() - 4;
        let mut roles: Vec<(&'static str, String)> = ["market", "eq", "x1", "x2"].iter().zip(&i.accounts[n..]).map(|(r, a)| (*r, nm(&a.pubkey))).collect();
        if !self.d.oos.contains(&nm(&i.accounts[0].pubkey)) {
            return None;
        }
        for a in &i.accounts[..n] {
            roles.push(("oos", nm(&a.pubkey)));
        }
        if roles.iter().any(|r| r.0 == "oos" && !self.d.oos.contains(&r.1)) || !roles[0].1.starts_with('M') {
            return None;
        }
        Some(Op { m: 0, args: Args::Consume { limit }, roles, unsign: vec![], note: "" })
    }
    /// One round with the instruction the client builds from what it reads. Returns false when there was nothing to do.
    fn crank(&mut self, m: usize, cw: &str, pw: &str) -> bool {
        let (pid, st, c, p) = (self.d.pid, self.keys(m), self.d.w.key(cw), self.d.w.key(pw));
        crate::mark("consume_events_instruction");
        let r = self.net.client(&mut self.d, move |cl| crank::consume_events_instruction(cl, &pid, &st, &c, &p).map_err(|e| e.to_string()));
        let mn = format!("M{}", m + 1);
        match r.unwrap_or(Err("the client panicked".into())) {
            Err(e) => {
                self.d.emit(&format!("{{\"op\":\"idle\",\"via\":\"C33\",\"m\":\"{}\",\"res\":\"err\",\"err\":\"{}\"}}", mn, e.replace('"', "'")));
                false
            }
            Ok(None) => {
                self.d.emit(&format!("{{\"op\":\"idle\",\"via\":\"C33\",\"m\":\"{}\",\"res\":\"ok\",\"err\":\"\"}}", mn));
                false
            }
            Ok(Some(i)) => {
                let op = match self.as_consume(&i) {
                    Some(o) => o,
                    None => {
                        self.d.emit(&format!("{{\"op\":\"odd\",\"via\":\"C33\",\"m\":\"{}\"}}", mn));
                        return false;
                    }
                };
                let kp = self.user("U1");
                let before = self.d.obs.mk[&mn].q.ev.len();
                self.ask(&op, "C33", &[], move |cl| {
                    let h = cl.get_latest_blockhash().map_err(|e| e.to_string())?;
                    let t = Transaction::new_signed_with_payer(&[i], Some(&kp.pubkey()), &[&kp], h);
                    serum_common::client::rpc::send_txn(cl, &t, false).map_err(|e| e.to_string())
                });
                self.d.obs.mk[&mn].q.ev.len() < before
            }
        }
    }
    /// the owner's open-orders account gets one event at the end of the queue
    fn arrive(&mut self, m: usize, u: &str, fill: bool) {
        let oo = match self.live(u, m) {
            Some(o) => o,
            None => format!("O{}{}a", &u[1..], m + 1),
        };
        self.cid += 1;
        let o = NewOrder {
            side: Side::Ask, price: 100 + self.cid % 7, qty: 1, pc: u64::MAX, ty: OrderType::PostOnly, cid: self.cid,
            stb: SelfTradeBehavior::DecrementTake, limit: 65535, max_ts: i64::MAX,
        };
        let cid = o.cid;
        let op = self.d.op(m, Args::New(o), u, &oo);
        if self.d.exec(&op) != Outcome::Ok {
            return;
        }
        let op = if fill {
            self.d.op(m, Args::Take { side: Side::Bid, price: u64::MAX >> 20, qty: 1, pc: 1 << 40, min_coin: 0, min_pc: 0, limit: 65535 }, "U1", "")
        } else {
            self.d.op(m, Args::CancelC { cid }, u, &oo)
        };
        self.d.exec(&op);
    }
    fn finish(mut self) {
        self.d.out.flush().unwrap();
        for f in &self.files {
            let _ = std::fs::remove_file(f);
        }
        let mut v: Vec<String> = self.d.kinds.iter().map(|(k, (a, b))| format!("\"{}\":[{},{}]", k, a, b)).collect();
        v.extend(self.net.asked.iter().map(|(k, n)| format!("\"rpc {}\":[{},0]", k, n)));
        println!("{{\"lines\":{},\"ok\":{},\"kinds\":{{{}}}}}", self.d.lines, self.d.oks, v.join(","));
    }
}
fn owner_s(d: &Dex, k: &Pubkey) -> &'static str {
    if *k == d.pid {
        "dex"
    } else if *k == spl_token::ID {
        "spl"
    } else {
        "other"
    }
}

/// A market made by the client. Gives the line that says what was asked for and what is there.
fn list(d: &mut Dex, net: &mut Net, i: usize, c: &MktCfg, salt: u64) -> String {
    let n = |s: &str| format!("M{}{}", i, s);
    let (pid, kp) = (d.pid, keypair(&d.w.key("U1")));
    let (cm, pm) = (d.w.key(&format!("N{}", c.coin_mint)), d.w.key(&format!("N{}", c.pc_mint)));
    let (cl, pl) = (c.coin_lot, c.pc_lot);
    let lam = d.w.accs[d.w.idx("U1")].lamports;
    crate::mark("list_market");
    let r = net.client(d, move |k| crank::list_market(k, &pid, &kp, &cm, &pm, cl, pl).map_err(|e| e.to_string()));
    let keys = match r {
        Some(Ok(k)) => k,
        e => {
            d.make_market(i, c, salt);
            let e = match e {
                Some(Err(e)) => e,
                _ => "panic".into(),
            };
            return json!({"op": "listed", "via": "C34", "got": {"res": e}, "want": {"res": "ok"}}).to_string();
        }
    };
    let spent = lam - d.w.accs[d.w.idx("U1")].lamports;
    let vs = *keys.vault_signer_key;
    let mut paid = 0;
    let all = [
        ("", &keys.market), (".rq", &keys.req_q), (".eq", &keys.event_q), (".bids", &keys.bids), (".asks", &keys.asks), (".cv", &keys.coin_vault),
        (".pv", &keys.pc_vault),
    ];
    let mut poor = 0;
    for (s, k) in all.iter() {
        let at = d.w.by_key[&***k];
        let old = d.w.accs[at].name.clone();
        d.w.by_name.remove(&old);
        d.w.accs[at].name = n(s);
        d.w.by_name.insert(n(s), at);
        paid += d.w.accs[at].lamports;
        if d.w.accs[at].lamports < rent(d.w.accs[at].data.bytes().len()) {
            poor += 1;
        }
    }
    d.plain(&n(".vs"), vs, solana_sdk::system_program::ID, 0);
    d.toks.push(n(".cv"));
    d.toks.push(n(".pv"));
    let mk = d.w.accs[d.w.idx(&n(""))].data.bytes().to_vec();
    let b = |k: bool| if k { "yes" } else { "no" };
    let tok = |s: &str, o: usize| Pubkey::new(&d.w.accs[d.w.idx(&n(s))].data.bytes()[o..o + 32]);
    let got = json!({
        "res": "ok", "flags": words(&mk, 0).to_string(), "own": b(key4(&mk, 1) == *keys.market), "cm": b(key4(&mk, 6) == cm), "pm": b(key4(&mk, 10) == pm),
        "cv": b(key4(&mk, 14) == *keys.coin_vault), "pv": b(key4(&mk, 20) == *keys.pc_vault), "rq": b(key4(&mk, 27) == *keys.req_q),
        "eq": b(key4(&mk, 31) == *keys.event_q), "bids": b(key4(&mk, 35) == *keys.bids), "asks": b(key4(&mk, 39) == *keys.asks),
        "cl": words(&mk, 43).to_string(), "pl": words(&mk, 44).to_string(), "vs": b(Pubkey::create_program_address(&[keys.market.as_ref().as_ref(), &words(&mk, 5).to_le_bytes()], &pid) == Ok(vs)), "cvm": b(tok(".cv", 0) == cm), "pvm": b(tok(".pv", 0) == pm), "cvo": b(tok(".cv", 32) == vs),
        "pvo": b(tok(".pv", 32) == vs), "poor": poor.to_string(), "spent": spent.to_string(), "tx": format!("{} {}", net.sent, net.failed),
    });
    let want = json!({
        "res": "ok", "flags": "3", "own": "yes", "cm": "yes", "pm": "yes", "cv": "yes", "pv": "yes", "rq": "yes", "eq": "yes", "bids": "yes", "asks": "yes",
        "cl": cl.to_string(), "pl": pl.to_string(), "vs": "yes", "cvm": "yes", "pvm": "yes", "cvo": "yes", "pvo": "yes", "poor": "0",
        "spent": paid.to_string(), "tx": got["tx"],
    });
    json!({"op": "listed", "via": "C34", "got": got, "want": want}).to_string()
}

pub fn run(prof: &str, seed: u64, n: u64, out: &str) {
    let mut r = Rng(seed.wrapping_mul(77) ^ 5);
    match prof {
        // requests of every kind, on a market of the client's own making or not
        "ops" | "listed" => {
            let listed = prof == "listed";
            let cfg = Cfg {
                markets: vec![MktCfg { coin_lot: *r.pick(&[1, 100, 1000]), pc_lot: *r.pick(&[1, 10, 100]), perm: if listed { 0 } else { *r.pick(&[0, 0, 1, 2]) },
                                       eq_len: 200, nodes: 256, ..MktCfg::default() }],
                users: 4,
                oos_per: 8,
                ..Cfg::default()
            };
            let mut c = Ck::new(cfg, listed, seed, out);
            if c.d.cfg.markets[0].perm > 0 {
                for u in 1..=4 {
                    let op = c.d.op(0, Args::InitOo, &format!("U{}", u), &format!("O{}1a", u));
                    c.d.exec(&op);
                }
            }
            while c.d.lines < n {
                c.step();
            }
            c.finish()
        }
        // mints, token accounts, and the demonstration run
        "tokens" => {
            let cfg = Cfg { users: 5, ..Cfg::default() };
            let mut c = Ck::new(cfg, false, seed, out);
            while c.d.lines < n {
                c.tokens();
                c.library();
            }
            c.finish()
        }
        "shebang" => {
            let cfg = Cfg { users: 2, ..Cfg::default() };
            let mut c = Ck::new(cfg, false, seed, out);
            c.shebang();
            c.finish()
        }
        "monitor" => {
            let cfg = Cfg { markets: vec![MktCfg { eq_len: 128 + r.below(40) as usize, perm: *r.pick(&[0, 1]), ..MktCfg::default() }], users: 12, ..Cfg::default() };
            let mut c = Ck::new(cfg, false, seed, out);
            for u in 1..=12 {
                let op = c.d.op(0, Args::InitOo, &format!("U{}", u), &format!("O{}1a", u));
                c.d.exec(&op);
            }
            c.monitor(0, n / 10);
            c.finish()
        }
        // many owners, any ring position
        "events" => {
            let users = 34 + r.below(12) as usize;
            let cfg = Cfg {
                markets: vec![MktCfg { eq_len: 128 + r.below(100) as usize, nodes: 256, perm: *r.pick(&[0, 0, 1, 2]), ..MktCfg::default() }],
                users,
                ..Cfg::default()
            };
            let mut c = Ck::new(cfg, false, seed, out);
            for u in 1..=users {
                let op = c.d.op(0, Args::InitOo, &format!("U{}", u), &format!("O{}1a", u));
                c.d.exec(&op);
            }
            let mut alone = 0;
            while c.d.lines < n {
                // bursts: few owners often, or everybody once
                let many = c.r.chance(1, 2);
                let k = if many { 20 + c.r.below(60) } else { c.r.below(20) };
                let pool: u64 = if many { users as u64 } else { 1 + c.r.below(6) };
                let first = c.r.below(users as u64);
                for j in 0..k {
                    let w = if many && c.r.chance(3, 4) { (first + j) % users as u64 } else { (first + c.r.below(pool)) % users as u64 };
                    let fill = c.r.chance(1, 3);
                    c.arrive(0, &format!("U{}", 1 + w), fill);
                    if c.r.chance(1, 30) {
                        c.crank(0, "U1.0", "U1.1");
                    }
                }
                let rounds = if c.r.chance(1, 2) { 1000 } else { c.r.below(4) };
                for _ in 0..rounds {
                    if c.r.chance(1, 10) {
                        c.print_queue(0);
                    }
                    if !c.crank(0, "U1.0", "U1.1") {
                        alone += 1;
                        break;
                    }
                }
                if alone > 400 {
                    break;
                }
            }
            c.finish()
        }
        // the crank left running by itself
        "loop" => {
            let users = if r.chance(1, 2) { 36 } else { 6 };
            let cfg = Cfg {
                markets: vec![MktCfg { eq_len: 128 + r.below(40) as usize, rq_len: *r.pick(&[1, 1, 2, 8]), nodes: 256, perm: *r.pick(&[0, 0, 1, 2]), ..MktCfg::default() }],
                users,
                ..Cfg::default()
            };
            let mut c = Ck::new(cfg, false, seed, out);
            for u in 1..=users {
                let op = c.d.op(0, Args::InitOo, &format!("U{}", u), &format!("O{}1a", u));
                c.d.exec(&op);
            }
            // somewhere in the ring
            let ring = c.d.cfg.markets[0].eq_len as u64;
            let spins = if c.r.chance(1, 2) { ring - 1 - c.r.below(5) } else { c.r.below(200) };
            for _ in 0..spins {
                let u = format!("U{}", 1 + c.r.below(users as u64));
                c.arrive(0, &u, false);
                let mut op = c.d.op(0, Args::Consume { limit: 8 }, "U1", "");
                let mine: Vec<String> = c.d.oos.iter().cloned().collect();
                let mut v = mine;
                v.sort_by_key(|n| c.d.key_words(n));
                op.roles.extend(v.into_iter().map(|n| ("oos", n)));
                c.d.exec(&op);
            }
            let k = if users > 6 { 36 } else { 4 + c.r.below(10) };
            let first = c.r.below(users as u64);
            for j in 0..k {
                let w = if users > 6 { (first + j) % users as u64 } else { c.r.below(users as u64) };
                let fill = c.r.chance(1, 3);
                c.arrive(0, &format!("U{}", 1 + w), fill);
            }
            let (a, w) = if users > 6 { (None, 1) } else { (*c.r.pick(&[None, Some(1), Some(2), Some(3)]), 1 + c.r.below(3)) };
            let per = 1 + c.r.below(6) + if users > 6 { 8 } else { 0 };
            let more = c.r.below(4);
            // how patient it is: with few events it may wait for more, but not beyond its delay
            let wait = *c.r.pick(&[(None, None), (None, None), (Some(1000), Some(1)), (Some(3), Some(1)), (Some(0), Some(60)), (Some(1000), Some(0))]);
            let faults = *c.r.pick(&[0, 0, 1, 2]);
            c.keep_cranking(0, w as usize, per as usize, a, more, wait, faults);
            c.finish()
        }
        _ => panic!("profile"),
    }
}

impl Ck {
    /// The crank runs in its loop until the queue is empty and it has seen it so; every transaction it sends is a line.
    fn keep_cranking(&mut self, m: usize, workers: usize, per: usize, accounts: Option<usize>, mut more: u64, wait: (Option<u64>, Option<u64>), mut faults: u64) {
        let mn = format!("M{}", m + 1);
        let payer = self.file("U2");
        let w = &self.d.w;
        let o = self.opts(Command::ConsumeEvents {
            dex_program_id: self.d.pid,
            payer,
            market: w.key(&mn),
            coin_wallet: w.key("U1.0"),
            pc_wallet: w.key("U1.1"),
            num_workers: workers,
            events_per_worker: per,
            num_accounts: accounts,
            log_directory: format!("{}.log", self.out),
            max_q_length: wait.0,
            max_wait_for_events_delay: wait.1,
        });
        self.files.push(format!("{}.log", self.out));
        let h = std::thread::spawn(move || crank::start(o).map_err(|e| e.to_string()));
        let eq = w.key(&format!("{}.eq", mn)).to_string();
        // queue length at the last look, and how many rounds in a row ended where they began
        let (mut seen, mut still, mut idle, mut rounds, mut sent) = (None, 0, 0, 0, 0);
        let (mut excused, mut at) = (false, 0);
        let mut verdict = "";
        while verdict.is_empty() {
            if h.is_finished() {
                verdict = "ended";
                break;
            }
            let call = match self.net.next_call(Duration::from_millis(20)) {
                Ok(c) => c,
                Err(_) => continue,
            };
            let len = self.d.obs.mk[&mn].q.ev.len();
            if call.method == "getAccountInfo" && call.params[0] == eq.as_str() {
                rounds += 1;
                // the answering node may still be at the slot it was at
                let stale = rounds > 1 && self.r.chance(1, 5);
                if stale {
                    self.net.slot = at - 1;
                } else {
                    self.net.tick();
                }
                at = self.net.slot + 1;
                if let Some(l) = seen {
                    if excused {
                    } else if l > 0 && sent == 0 {
                        still += 1
                    } else {
                        still = 0
                    }
                    if l == 0 {
                        idle += 1;
                        if sent > 0 {
                            verdict = "busy on an empty queue"
                        }
                    }
                }
                sent = 0;
                excused = stale;
                if still >= 4 {
                    verdict = "stuck"
                }
                if idle >= 1 && len == 0 {
                    verdict = "drained"
                }
                seen = Some(len);
                if rounds > 60 {
                    verdict = "endless"
                }
            }
            if call.method == "sendTransaction" && faults > 0 && self.r.chance(1, 3) {
                // refused, or accepted and lost
                faults -= 1;
                excused = true;
                let sig = Net::decode(call.params[0].as_str().unwrap_or(""), call.params[1]["encoding"].as_str().unwrap_or("base58")).ok().map(|(t, _)| t.signatures[0].to_string());
                match sig {
                    Some(g) if self.r.chance(1, 2) => call.answer(Ok(json!(g))),
                    _ => call.answer(Err((-32005, "Node is behind".into()))),
                }
                continue;
            }
            if call.method == "sendTransaction" {
                let enc = call.params[1]["encoding"].as_str().unwrap_or("base58").to_string();
                let t = Net::decode(call.params[0].as_str().unwrap_or(""), &enc).ok();
                let op = t.as_ref().and_then(|(t, _)| {
                    let i = t.message.instructions.get(0)?;
                    let ins = Instruction {
                        program_id: t.message.account_keys[i.program_id_index as usize],
                        accounts: i.accounts.iter().map(|k| solana_sdk::instruction::AccountMeta::new(t.message.account_keys[*k as usize], false)).collect(),
                        data: i.data.clone(),
                    };
                    self.as_consume(&ins)
                });
                match op {
                    None => verdict = "odd",
                    Some(op) => {
                        let net = &mut self.net;
                        net.sent = 0;
                        net.failed = 0;
                        net.toobig = 0;
                        let mut reply = None;
                        let rp = &mut reply;
                        let (method, params) = (call.method.clone(), call.params.clone());
                        self.d.record(&op, &[], |d, s| {
                            *rp = Some(net.reply(d, &method, &params));
                            let _ = write!(s, ",\"via\":\"C33L\",\"tx\":{{\"ok\":{},\"bad\":{},\"big\":{}}},\"made\":[]", net.sent, net.failed, net.toobig);
                            if net.sent > 0 { Outcome::Ok } else { Outcome::Err("failed".into()) }
                        });
                        call.answer(reply.unwrap());
                        if self.d.obs.mk[&mn].q.ev.len() < len {
                            sent += 1;
                        }
                        continue;
                    }
                }
            }
            self.net.serve(&mut self.d, call);
            // life goes on
            if verdict.is_empty() && more > 0 && self.r.chance(1, 12) {
                more -= 1;
                let u = format!("U{}", 1 + self.r.below(self.d.cfg.users as u64));
                self.arrive(m, &u, false);
            }
        }
        self.d.emit(&format!("{{\"op\":\"loop\",\"via\":\"C33\",\"m\":\"{}\",\"res\":\"{}\",\"rounds\":{}}}", mn, verdict, rounds));
    }
}

/// Histories of the model: "b aN.. c.." one per line; a<g> a block of events of group g, c one crank round.
pub fn replay(text: &str, out: &str) {
    let block = 14;
    let groups = 4;
    let cfg = Cfg { markets: vec![MktCfg { eq_len: 150, nodes: 256, ..MktCfg::default() }], users: block * groups, ..Cfg::default() };
    let mut c = Ck::new(cfg, false, 7, out);
    for u in 1..=block * groups {
        let op = c.d.op(0, Args::InitOo, &format!("U{}", u), &format!("O{}1a", u));
        c.d.exec(&op);
    }
    for l in text.lines() {
        for t in l.split_whitespace() {
            match &t[..1] {
                "a" => {
                    let g: usize = t[1..].parse().unwrap();
                    for j in 0..block {
                        c.arrive(0, &format!("U{}", 1 + g * block + j), false);
                    }
                }
                _ => {
                    c.crank(0, "U1.0", "U1.1");
                }
            }
        }
        // and to the end
        for _ in 0..40 {
            if !c.crank(0, "U1.0", "U1.1") {
                break;
            }
        }
    }
    c.finish()
}
// ---- everything else the command line offers ----
fn mint_state(d: &Dex, k: &Pubkey) -> Option<(u64, u8, Pubkey)> {
    let a = &d.w.accs[*d.w.by_key.get(k)?];
    let b = a.data.bytes();
    if a.owner != spl_token::ID || b.len() != 82 || b[45] != 1 || b[0] != 1 {
        return None;
    }
    Some((abi::u64at(b, 36), b[44], Pubkey::new(&b[4..36])))
}
fn token_state(d: &Dex, k: &Pubkey) -> Option<(Pubkey, Pubkey, u64)> {
    let a = &d.w.accs[*d.w.by_key.get(k)?];
    let b = a.data.bytes();
    if a.owner != spl_token::ID || b.len() != 165 || b[108] != 1 {
        return None;
    }
    Some((Pubkey::new(&b[..32]), Pubkey::new(&b[32..64]), abi::u64at(b, 64)))
}
impl Ck {
    fn tokens(&mut self) {
        let (payer, auth) = (format!("U{}", 1 + self.r.below(4)), format!("U{}", 1 + self.r.below(4)));
        // a mint
        let mut b = [0u8; 32];
        for c in b.chunks_exact_mut(8) {
            c.copy_from_slice(&self.r.next().to_le_bytes());
        }
        let mk = crate::rpc::keygen(&b);
        let dec = self.r.below(10) as u8;
        let mf = format!("{}.mint.json", self.out);
        let js: Vec<String> = keypair(&mk).to_bytes().iter().map(|b| b.to_string()).collect();
        std::fs::write(&mf, format!("[{}]", js.join(","))).unwrap();
        if !self.files.contains(&mf) {
            self.files.push(mf.clone());
        }
        let (pf, af) = (self.file(&payer), self.file(&auth));
        let (pk, ak) = (self.d.w.key(&payer), self.d.w.key(&auth));
        let o = self.opts(Command::Genesis { payer: pf.clone(), mint: mf, owner_pubkey: ak, decimals: dec });
        let res = self.quiet("genesis", o);
        let st = mint_state(&self.d, &mk);
        self.d.emit(&format!(
            "{{\"op\":\"genesis\",\"via\":\"C34\",\"res\":\"{}\",\"dec\":{},\"mint\":{{\"n\":{},\"dec\":{},\"auth\":{},\"supply\":\"{}\"}},\"made\":{},\"tx\":{}}}",
            res, dec, st.is_some() as u8, st.map_or(99, |s| s.1), st.map_or(false, |s| s.2 == ak), st.map_or(0, |s| s.0), self.made(), self.net.sent
        ));
        if st.is_none() {
            return;
        }
        // an account for it
        let o = self.opts(Command::InitializeTokenAccount { mint: mk, owner_account: af.clone() });
        let res = self.quiet("initialize-token-account", o);
        let made = self.net.made.get(0).map(|m| m.name.clone()).unwrap_or_default();
        let at = self.d.w.by_name.get(&made).map(|&i| self.d.w.accs[i].key);
        let t = at.and_then(|k| token_state(&self.d, &k));
        self.d.emit(&format!(
            "{{\"op\":\"opentok\",\"via\":\"C34\",\"res\":\"{}\",\"mint\":{},\"own\":{},\"amt\":\"{}\",\"made\":{},\"tx\":{}}}",
            res, t.map_or(false, |t| t.0 == mk), t.map_or(false, |t| t.1 == ak), t.map_or(1, |t| t.2), self.made(), self.net.sent
        ));
        // money for it, and for an account that is made on the way
        let acct = match at {
            Some(k) => k,
            None => return,
        };
        for _ in 0..3 {
            let fresh = self.r.chance(1, 3);
            let thief = self.r.chance(1, 5);
            let signer = if thief { "U5".to_string() } else { auth.clone() };
            let sf = self.file(&signer);
            let q = *self.r.pick(&[1, 1000, u64::MAX / 2, 0]);
            let (s0, a0) = (mint_state(&self.d, &mk).unwrap().0, if fresh { 0 } else { token_state(&self.d, &acct).map_or(0, |t| t.2) });
            let o = self.opts(Command::Mint { payer: pf.clone(), signer: sf, mint_pubkey: mk, recipient: if fresh { None } else { Some(acct) }, quantity: q });
            let res = self.quiet("mint", o);
            let to = if fresh {
                let n = self.net.made.get(0).map(|m| m.name.clone()).unwrap_or_default();
                self.d.w.by_name.get(&n).map(|&i| self.d.w.accs[i].key)
            } else {
                Some(acct)
            };
            let t = to.and_then(|k| token_state(&self.d, &k));
            self.d.emit(&format!(
                "{{\"op\":\"mint\",\"via\":\"C34\",\"res\":\"{}\",\"by\":{},\"fresh\":{},\"q\":\"{}\",\"s0\":\"{}\",\"a0\":\"{}\",\"s1\":\"{}\",\"a1\":\"{}\",\"mint\":{},\"own\":{},\"made\":{},\"tx\":{}}}",
                res, signer == auth, fresh, q, s0, a0, mint_state(&self.d, &mk).unwrap().0, t.map_or(0, |t| t.2), t.map_or(false, |t| t.0 == mk),
                t.map_or(false, |t| t.1 == if fresh { pk } else { ak }), self.made(), self.net.sent
            ));
        }
    }
    /// the same through the client library, with transfers
    fn library(&mut self) {
        use serum_common::client::rpc as lib;
        let users = self.d.cfg.users as u64;
        let u = |r: &mut Rng| format!("U{}", 1 + r.below(users.min(4)));
        let (payer, auth, hold) = (u(&mut self.r), u(&mut self.r), u(&mut self.r));
        let (pk, ak, hk) = (self.d.w.key(&payer), self.d.w.key(&auth), self.d.w.key(&hold));
        let dec = self.r.below(256) as u8;
        let kp = keypair(&pk); let got = self.call("new_mint", move |c| lib::new_mint(c, &kp, &ak, dec).map(|(k, _)| k.pubkey()).map_err(|e| e.to_string()));
        let st = got.and_then(|k| mint_state(&self.d, &k));
        self.d.emit(&format!(
            "{{\"op\":\"genesis\",\"via\":\"C34\",\"res\":\"{}\",\"dec\":{},\"mint\":{{\"n\":{},\"dec\":{},\"auth\":{},\"supply\":\"{}\"}},\"made\":{},\"tx\":{}}}",
            if got.is_some() { "ok" } else { "err" }, dec, st.is_some() as u8, st.map_or(999, |s| s.1 as u32), st.map_or(false, |s| s.2 == ak), st.map_or(0, |s| s.0), self.made(), self.net.sent
        ));
        let mk = match (got, st) {
            (Some(k), Some(_)) => k,
            _ => return,
        };
        let mut acc = vec![];
        for o in [hk, pk] {
            let kp = keypair(&pk); let got = self.call("create_token_account", move |c| lib::create_token_account(c, &mk, &o, &kp).map(|k| k.pubkey()).map_err(|e| e.to_string()));
            let t = got.and_then(|k| token_state(&self.d, &k));
            self.d.emit(&format!(
                "{{\"op\":\"opentok\",\"via\":\"C34\",\"res\":\"{}\",\"mint\":{},\"own\":{},\"amt\":\"{}\",\"made\":{},\"tx\":{}}}",
                if got.is_some() { "ok" } else { "err" }, t.map_or(false, |t| t.0 == mk), t.map_or(false, |t| t.1 == o), t.map_or(1, |t| t.2), self.made(), self.net.sent
            ));
            match got {
                Some(k) if t.is_some() => acc.push(k),
                _ => return,
            }
        }
        // money to move, made outside the client
        let n = *self.r.pick(&[0, 1, 7, 1000, u64::MAX / 2]);
        let i = self.d.w.by_key[&acc[0]];
        self.d.w.accs[i].data.bytes_mut()[64..72].copy_from_slice(&n.to_le_bytes());
        for _ in 0..3 {
            let (f, t) = if self.r.chance(1, 3) { (1, 0) } else { (0, 1) };
            let right = if f == 0 { hk } else { pk };
            let by = if self.r.chance(1, 4) { self.d.w.key("U5") } else { right };
            let have = token_state(&self.d, &acc[f]).map_or(0, |t| t.2);
            let q = *self.r.pick(&[0, 1, have, have / 2, have.wrapping_add(1)]);
            let (from, to) = (acc[f], acc[t]);
            let (a0, b0) = (have, token_state(&self.d, &to).map_or(0, |t| t.2));
            let (kp, kb) = (keypair(&pk), keypair(&by)); let got = self.call("transfer", move |c| lib::transfer(c, &from, &to, q, &kb, &kp).map(|_| ()).map_err(|e| e.to_string()));
            let tok = |d: &Dex, k: &Pubkey| token_state(d, k).map_or(0, |t| t.2);
            self.d.emit(&format!(
                "{{\"op\":\"move\",\"via\":\"C34\",\"res\":\"{}\",\"by\":{},\"q\":\"{}\",\"a0\":\"{}\",\"b0\":\"{}\",\"a1\":\"{}\",\"b1\":\"{}\",\"made\":{},\"tx\":{}}}",
                if got.is_some() { "ok" } else { "err" }, by == right, q, a0, b0, tok(&self.d, &from), tok(&self.d, &to), self.made(), self.net.sent
            ));
            // and read back
             let got = self.call("get_token_account", move |c| {
                lib::get_token_account::<spl_token::state::Account>(c, &to).map(|t| (t.mint, t.owner, t.amount)).map_err(|e| e.to_string())
            });
            let want = token_state(&self.d, &to);
            self.d.emit(&format!("{{\"op\":\"look\",\"via\":\"C34\",\"res\":{},\"tx\":{}}}", got.is_some() && got == want, self.net.sent));
        }
        // a bare account
        let (space, own) = (*self.r.pick(&[0usize, 1, 165, 3228]), *self.r.pick(&[spl_token::ID, self.d.pid]));
        let kp = keypair(&pk); let got = self.call("create_account_rent_exempt", move |c| lib::create_account_rent_exempt(c, &kp, space, &own).map(|k| k.pubkey()).map_err(|e| e.to_string()));
        let at = got.and_then(|k| self.d.w.by_key.get(&k).cloned());
        self.d.emit(&format!(
            "{{\"op\":\"bare\",\"via\":\"C34\",\"res\":\"{}\",\"space\":{},\"own\":\"{}\",\"there\":{},\"made\":{},\"tx\":{}}}",
            if got.is_some() { "ok" } else { "err" }, space, owner_s(&self.d, &own), at.map_or(false, |i| self.d.w.accs[i].data.bytes().iter().all(|&b| b == 0)), self.made(), self.net.sent
        ));
    }
    fn call<T: Send + 'static>(&mut self, what: &str, f: impl FnOnce(&solana_client::rpc_client::RpcClient) -> Result<T, String> + Send + 'static) -> Option<T> {
        crate::mark(what);
        self.quiet_made();
        match self.net.client(&mut self.d, f) {
            Some(Ok(x)) => Some(x),
            _ => None,
        }
    }
    fn made(&self) -> String {
        let v: Vec<String> = self.net.made.iter().map(|m| format!("{{\"space\":{},\"lam\":\"{}\",\"own\":\"{}\"}}", m.space, m.lam, owner_s(&self.d, &m.own))).collect();
        format!("[{}]", v.join(","))
    }
    fn quiet(&mut self, what: &str, o: Opts) -> &'static str {
        crate::mark(what);
        self.quiet_made();
        match self.net.client(&mut self.d, move |_| crank::start(o).map_err(|e| e.to_string())) {
            Some(Ok(())) => "ok",
            _ => "err",
        }
    }
    fn quiet_made(&mut self) {
        // lamports spent between two recorded requests are the environment's doing
        self.d.ext("recreate");
    }
    /// the whole demonstration the client ships with
    fn shebang(&mut self) {
        self.d.w.clock = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() as i64;
        let payer = self.file("U1");
        let o = self.opts(Command::WholeShebang { dex_program_id: self.d.pid, payer });
        let res = self.quiet("whole-shebang", o);
        self.d.ext("recreate");
        self.d.emit(&format!("{{\"op\":\"shebang\",\"via\":\"C34\",\"res\":\"{}\",\"tx\":{},\"bad\":{}}}", res, self.net.sent, self.net.failed));
    }
    /// the queue monitor, asked a few times
    fn monitor(&mut self, m: usize, rounds: u64) {
        let port = std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
        let mn = format!("M{}", m + 1);
        let o = self.opts(Command::MonitorQueue { dex_program_id: self.d.pid, market: self.d.w.key(&mn), port });
        std::thread::spawn(move || crank::start(o).map_err(|e| e.to_string()));
        for _ in 0..rounds {
            let users = self.d.cfg.users as u64;
            for _ in 0..self.r.below(6) {
                let u = format!("U{}", 1 + self.r.below(users));
                self.arrive(m, &u, false);
            }
            if self.r.chance(1, 3) {
                self.crank(m, "U1.0", "U1.1");
            }
            let h = std::thread::spawn(move || -> Option<String> {
                use std::io::{Read, Write};
                for _ in 0..200 {
                    if let Ok(mut s) = std::net::TcpStream::connect(("127.0.0.1", port)) {
                        s.set_read_timeout(Some(Duration::from_secs(10))).ok()?;
                        s.write_all(b"GET /length HTTP/1.1\r\nhost: localhost\r\nconnection: close\r\n\r\n").ok()?;
                        let mut b = String::new();
                        s.read_to_string(&mut b).ok()?;
                        return Some(b);
                    }
                    std::thread::sleep(Duration::from_millis(20));
                }
                None
            });
            while !h.is_finished() {
                if let Ok(c) = self.net.next_call(Duration::from_millis(2)) {
                    self.net.serve(&mut self.d, c);
                }
            }
            let b = h.join().ok().flatten().unwrap_or_default();
            let n: String = b.split("\"length\":").nth(1).unwrap_or("").chars().filter(|c| c.is_ascii_digit()).collect();
            self.d.emit(&format!("{{\"op\":\"monitor\",\"via\":\"C33\",\"m\":\"{}\",\"n\":\"{}\"}}", mn, n));
        }
    }
}
#[allow(dead_code)]
fn unused() -> &'static str {
    side_s(Side::Bid)
}
