//! The exchange under test: set-up, operations, execution, observation (trace lines).
use crate::abi;
use crate::world::{Data, Outcome, Ref, World};
use serum_dex::instruction as ix;
use serum_dex::instruction::SelfTradeBehavior;
use serum_dex::matching::{OrderType, Side};
use solana_program::account_info::AccountInfo;
use solana_program::instruction::{AccountMeta, Instruction};
use solana_program::program_option::COption;
use solana_program::program_pack::Pack;
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use solana_program::system_program;
use spl_token::state::{Account as SplAccount, AccountState, Mint};
use std::collections::BTreeMap;
use std::convert::TryFrom;
use std::fmt::Write as _;
use std::io::Write;
use std::num::NonZeroU64;
use std::str::FromStr;

pub const SRM: &str = "SRMuApVNdxXokk5GT7XD5cUUgXMBCoAz2LHeuAoKWRt";
pub const MSRM: &str = "MSRMcoVyrFxnSgo5uXwone5SKcGhT1KEJMFEkMEWf9L";
pub const DISABLE_AUTH: &str = "5ZVJgwWxMsqXxRMYHXqMwH2hd4myX5Ef4Au2iUsuNQ7V";
pub const FEE_SWEEPER: &str = "DeqYsmBd9BnrbgUwQjVH4sQWK71dEgE6eoZFw3Rp4ftE";
pub const STABLE: [&str; 6] = [
    "77quYg4MGneUdjgXCunt9GgM1usmrxKY31twEy3WHwcS",
    "5cLrMai1DsLRYc1Nio9qMTicsWtvzjzZfJPXyAoF4t1Z",
    "EERNEEnBqdGzBS8dd46wwNY5F2kwnaCQ3vsq2fNKGogZ",
    "8sFf9TW3KzxLiBXcDcjAxqabEsRroo4EiRr3UG1xbJ9m",
    "2iDSTGhjJEiRxNaLF27CY6daMYPs5hgYrP2REHd5YD62",
    "CaFjigEgJdtGPxQxRjneA1hzNcY5MsHoAAL6Et67QrC5",
];

#[derive(Clone, Debug)]
pub struct MktCfg {
    /// 0 ordinary, 1 +open-orders authority, 2 +prune authority, 3 +crank authority
    pub perm: u8,
    pub coin_lot: u64,
    pub pc_lot: u64,
    pub eq_len: usize,
    pub rq_len: usize,
    pub nodes: usize,
    pub key: Option<&'static str>,
    pub coin_mint: usize,
    pub pc_mint: usize,
}
impl Default for MktCfg {
    fn default() -> Self {
        MktCfg { perm: 0, coin_lot: 100, pc_lot: 10, eq_len: 256, rq_len: 8, nodes: 256, key: None, coin_mint: 0, pc_mint: 1 }
    }
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub markets: Vec<MktCfg>,
    pub users: usize,
    pub oos_per: usize, // open-orders accounts per (user, market)
    pub coin_bal: u64,
    pub pc_bal: u64,
    pub decoys: bool,
    pub discounts: Vec<(usize, bool, u64)>, // (user, msrm?, balance)
    pub poor_oo: bool, // one extra account per user that is not rent exempt
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            markets: vec![MktCfg::default()],
            users: 3,
            oos_per: 1,
            coin_bal: 1_000_000_000_000,
            pc_bal: 1_000_000_000_000,
            decoys: false,
            discounts: vec![],
            poor_oo: false,
        }
    }
}

#[derive(Clone, Debug)]
pub struct NewOrder {
    pub side: Side,
    pub price: u64,
    pub qty: u64,
    pub pc: u64,
    pub ty: OrderType,
    pub cid: u64,
    pub stb: SelfTradeBehavior,
    pub limit: u16,
    pub max_ts: i64,
}

#[derive(Clone, Debug)]
pub enum Args {
    New(NewOrder),
    Replace(Vec<NewOrder>, bool /* single-order opcode */),
    Take { side: Side, price: u64, qty: u64, pc: u64, min_coin: u64, min_pc: u64, limit: u16 },
    Cancel { side: Side, id: u128 },
    CancelC { cid: u64 },
    CancelB { cids: Vec<u64> },
    Settle,
    Consume { limit: u16 },
    ConsumeP { limit: u16 },
    Disable,
    Sweep,
    Close,
    InitOo,
    Prune { limit: u16 },
}

#[derive(Clone, Debug)]
pub struct Op {
    pub m: usize, // market the op is meant for
    pub args: Args,
    /// (role, account name); open-orders accounts of a crank have role "oos"
    pub roles: Vec<(&'static str, String)>,
    /// roles stripped of their signature
    pub unsign: Vec<&'static str>,
    pub note: &'static str,
}
impl Op {
    pub fn set(&mut self, role: &str, name: &str) -> bool {
        for r in self.roles.iter_mut() {
            if r.0 == role {
                r.1 = name.into();
                return true;
            }
        }
        false
    }
    pub fn get(&self, role: &str) -> &str {
        self.roles.iter().find(|r| r.0 == role).map(|r| r.1.as_str()).unwrap_or("")
    }
}

#[derive(Clone, Default)]
pub struct MObs {
    pub m: abi::Mkt,
    pub q: abi::Queue,
    pub rq: (u64, u64, u64, u64),
    pub bids: Vec<abi::Order>, // best first
    pub asks: Vec<abi::Order>,
    pub bok: String,
}
#[derive(Clone, Default)]
pub struct Obs {
    pub mk: BTreeMap<String, MObs>,
    pub oo: BTreeMap<String, abi::Oo>,
    pub tok: BTreeMap<String, u64>,
    pub lam: BTreeMap<String, u64>,
}

pub struct Dex {
    pub w: World,
    pub pid: Pubkey,
    pub cfg: Cfg,
    pub obs: Obs,
    pub toks: Vec<String>,
    pub oos: Vec<String>,
    pub names: BTreeMap<[u8; 32], String>,
    pub out: Box<dyn Write>,
    pub lines: u64,
    pub oks: u64,
    pub kinds: BTreeMap<String, (u64, u64)>,
    pub last: Outcome,
    pub decoys: Vec<String>,
    pub mute: bool,
    pub emitted: u64,
}

pub fn entry(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> Result<(), String> {
    serum_dex::state::State::process(p, a, d).map_err(|e| format!("{:?}", e))
}

fn nz(x: u64) -> NonZeroU64 {
    NonZeroU64::new(x.max(1)).unwrap()
}
pub fn side_s(s: Side) -> &'static str {
    if s == Side::Bid { "bid" } else { "ask" }
}
fn ty_s(t: OrderType) -> &'static str {
    match t {
        OrderType::Limit => "limit",
        OrderType::ImmediateOrCancel => "ioc",
        OrderType::PostOnly => "post",
    }
}
fn stb_s(t: SelfTradeBehavior) -> &'static str {
    match t {
        SelfTradeBehavior::DecrementTake => "dec",
        SelfTradeBehavior::CancelProvide => "cxl",
        SelfTradeBehavior::AbortTransaction => "abort",
    }
}

pub fn pack_token(mint: &Pubkey, owner: &Pubkey, amount: u64) -> Data {
    let mut a = SplAccount::default();
    a.mint = *mint;
    a.owner = *owner;
    a.amount = amount;
    a.state = AccountState::Initialized;
    a.delegate = COption::None;
    let mut d = Data::new(SplAccount::LEN);
    SplAccount::pack(a, d.bytes_mut()).unwrap();
    d
}
pub fn pack_mint() -> Data {
    let mut m = Mint::default();
    m.is_initialized = true;
    let mut d = Data::new(Mint::LEN);
    Mint::pack(m, d.bytes_mut()).unwrap();
    d
}
pub fn vault_signer(market: &Pubkey, pid: &Pubkey) -> (u64, Pubkey) {
    for n in 0u64..256 {
        if let Ok(k) = Pubkey::create_program_address(&[market.as_ref(), &n.to_le_bytes()], pid) {
            return (n, k);
        }
    }
    panic!()
}
pub fn rent(len: usize) -> u64 {
    Rent::default().minimum_balance(len)
}

impl Dex {
    pub fn new(cfg: Cfg, salt: u64, out: Box<dyn Write>) -> Self {
        Self::with(cfg, salt, out, &mut |d, i, c| d.make_market(i, c, salt))
    }
    /// As new, with markets made in another way.
    pub fn with(cfg: Cfg, salt: u64, out: Box<dyn Write>, make: &mut dyn FnMut(&mut Dex, usize, &MktCfg)) -> Self {
        let mut w = World::new();
        w.clock = 1_600_000_000;
        let pid = w.fresh_key(salt);
        let mut d = Dex {
            w,
            pid,
            cfg: cfg.clone(),
            obs: Obs::default(),
            toks: vec![],
            oos: vec![],
            names: BTreeMap::new(),
            out,
            lines: 0,
            oks: 0,
            kinds: BTreeMap::new(),
            last: Outcome::Ok,
            decoys: vec![],
            mute: false,
            emitted: 0,
        };
        let sys = system_program::ID;
        d.plain("spl", spl_token::ID, solana_program::bpf_loader::ID, 1);
        d.plain("sys", sys, solana_program::bpf_loader::ID, 1);
        d.plain("rent", solana_program::sysvar::rent::ID, solana_program::sysvar::ID, 1);
        d.plain("DIS", Pubkey::from_str(DISABLE_AUTH).unwrap(), sys, 1);
        d.plain("SWP", Pubkey::from_str(FEE_SWEEPER).unwrap(), sys, 1);
        d.plain_new("X", salt);
        let nm = cfg.markets.iter().map(|m| m.coin_mint.max(m.pc_mint)).max().unwrap() + 1;
        for i in 0..nm {
            let k = d.w.fresh_key(salt);
            d.w.add(&format!("N{}", i), k, spl_token::ID, rent(Mint::LEN), pack_mint());
        }
        for u in 1..=cfg.users {
            d.plain_new(&format!("U{}", u), salt);
        }
        for (i, m) in cfg.markets.iter().enumerate() {
            make(&mut d, i + 1, m);
        }
        for u in 1..=cfg.users {
            for i in 0..nm {
                // half-decimal convention: mint parity decides the default balance
                let b = if i % 2 == 0 { cfg.coin_bal } else { cfg.pc_bal };
                d.token(&format!("U{}.{}", u, i), &format!("N{}", i), &format!("U{}", u), b, salt);
            }
            for i in 0..cfg.markets.len() {
                for j in 0..cfg.oos_per {
                    let name = format!("O{}{}{}", u, i + 1, (b'a' + j as u8) as char);
                    d.blank_oo(&name, salt, rent(abi::OO_LEN));
                }
            }
            if cfg.poor_oo {
                d.blank_oo(&format!("P{}", u), salt, rent(abi::OO_LEN) - 1);
            }
        }
        for i in 0..nm {
            d.token(&format!("R.{}", i), &format!("N{}", i), "X", 0, salt); // referrer / fee receiver
            d.token(&format!("X.{}", i), &format!("N{}", i), "X", 1_000_000, salt);
        }
        let (srm, msrm) = (Pubkey::from_str(SRM).unwrap(), Pubkey::from_str(MSRM).unwrap());
        d.w.add("SRM", srm, spl_token::ID, rent(Mint::LEN), pack_mint());
        d.w.add("MSRM", msrm, spl_token::ID, rent(Mint::LEN), pack_mint());
        for (n, (u, ms, bal)) in cfg.discounts.clone().into_iter().enumerate() {
            let mint = if ms { "MSRM" } else { "SRM" };
            d.token(&format!("D{}", n), mint, &format!("U{}", u), bal, salt);
        }
        if cfg.decoys {
            d.make_decoys(salt);
        }
        for a in &d.w.accs {
            d.names.insert(a.key.to_bytes(), a.name.clone());
        }
        d.obs = d.observe();
        d.emit_setup();
        d
    }
    pub fn plain(&mut self, n: &str, k: Pubkey, o: Pubkey, l: u64) {
        self.w.add(n, k, o, l, Data::new(0));
    }
    fn plain_new(&mut self, n: &str, salt: u64) {
        let k = self.w.fresh_key(salt);
        self.plain(n, k, system_program::ID, 1_000_000);
    }
    pub fn token(&mut self, n: &str, mint: &str, owner: &str, bal: u64, salt: u64) {
        let k = self.w.fresh_key(salt);
        let d = pack_token(&self.w.key(mint), &self.w.key(owner), bal);
        self.w.add(n, k, spl_token::ID, rent(SplAccount::LEN), d);
        self.toks.push(n.into());
    }
    fn blank_oo(&mut self, n: &str, salt: u64, lam: u64) {
        let k = self.w.fresh_key(salt);
        let pid = self.pid;
        self.w.add(n, k, pid, lam, Data::new(abi::OO_LEN));
        self.oos.push(n.into());
    }
    pub fn make_market(&mut self, i: usize, c: &MktCfg, salt: u64) {
        let n = |s: &str| format!("M{}{}", i, s);
        let mk = match c.key {
            Some(k) => Pubkey::from_str(k).unwrap(),
            None => self.w.fresh_key(salt),
        };
        let pid = self.pid;
        let mlen = if c.perm > 0 { 1476 } else { 388 };
        let (nonce, vs) = vault_signer(&mk, &pid);
        self.w.add(&n(""), mk, pid, rent(mlen), Data::new(mlen));
        let lens = [12 + 32 + 80 * c.rq_len, 12 + 32 + 88 * c.eq_len, 12 + 8 + 32 + 72 * c.nodes, 12 + 8 + 32 + 72 * c.nodes];
        let mut lens = lens.to_vec();
        for l in lens.iter_mut() {
            *l += (4 + 8 - *l % 8) % 8; // len % 8 == 4
        }
        for (s, l) in [".rq", ".eq", ".bids", ".asks"].iter().zip(lens) {
            let k = self.w.fresh_key(salt);
            self.w.add(&n(s), k, pid, rent(l), Data::new(l));
        }
        self.plain(&n(".vs"), vs, system_program::ID, 0);
        self.token(&n(".cv"), &format!("N{}", c.coin_mint), &n(".vs"), 0, salt);
        self.token(&n(".pv"), &format!("N{}", c.pc_mint), &n(".vs"), 0, salt);
        let auths: Vec<String> = [".ooa", ".pra", ".cra"].iter().map(|s| n(s)).collect();
        for a in auths.iter().take(c.perm as usize) {
            self.plain_new(a, salt);
        }
        let ak: Vec<Pubkey> = auths.iter().take(c.perm as usize).map(|a| self.w.key(a)).collect();
        let w = &self.w;
        let ins = ix::initialize_market(
            &mk, &pid, &w.key(&format!("N{}", c.coin_mint)), &w.key(&format!("N{}", c.pc_mint)),
            &w.key(&n(".cv")), &w.key(&n(".pv")), ak.get(0), ak.get(1), ak.get(2),
            &w.key(&n(".bids")), &w.key(&n(".asks")), &w.key(&n(".rq")), &w.key(&n(".eq")),
            c.coin_lot, c.pc_lot, nonce, 0,
        )
        .unwrap();
        let r = self.run_ix(&ins);
        if r != Outcome::Ok {
            // the trace then starts from a market that does not exist: the spec flags it
            eprintln!("market init failed: {:?}", r);
        }
    }
    fn make_decoys(&mut self, salt: u64) {
        // look-alikes: byte-identical copies owned by another program, or foreign token accounts
        let evil = self.w.fresh_key(salt);
        self.w.add("EVIL", evil, solana_program::bpf_loader::ID, 1, Data::new(0));
        let mut fakes: Vec<String> = vec!["U1.0".into(), "U1.1".into()];
        fakes.extend((0..self.cfg.discounts.len()).map(|i| format!("D{}", i)).filter(|n| self.w.by_name.contains_key(n)));
        let ms: Vec<String> = (1..=self.cfg.markets.len()).map(|i| format!("M{}", i)).collect();
        for m in &ms {
            for s in ["", ".rq", ".eq", ".bids", ".asks", ".cv", ".pv"].iter() { fakes.push(format!("{}{}", m, s)) }
        }
        for n in fakes.iter() {
            let nm = self.twin("fake", n, salt);
            self.decoys.push(nm);
        }
        // same program, same content, wrong address
        for m in &ms {
            for s in [".rq", ".eq", ".bids", ".asks"].iter() {
                let nm = self.twin("copy", &format!("{}{}", m, s), salt);
                self.decoys.push(nm);
            }
            for s in [".cv", ".pv"].iter() {
                let nm = self.twin("copy", &format!("{}{}", m, s), salt);
                self.toks.push(nm.clone());
                self.decoys.push(nm);
            }
        }
        // uninitialised token account
        let k = self.w.fresh_key(salt);
        self.w.add("fake.uninit", k, spl_token::ID, 1, Data::new(SplAccount::LEN));
        self.decoys.push("fake.uninit".into());
        // frozen token accounts
        let mine: Vec<String> = self.toks.iter().filter(|n| n.starts_with("U1")).cloned().collect();
        for n in mine {
            let mut a = self.w.accs[self.w.idx(&n)].clone();
            a.data.bytes_mut()[0x6c] = 2;
            let k = self.w.fresh_key(salt);
            let nm = format!("fake.frz.{}", n);
            self.w.add(&nm, k, a.owner, a.lamports, a.data);
            self.decoys.push(nm);
        }
        // a program posing as the token program
        self.decoys.push("EVIL".into());
        self.decoys.push("sys".into());
    }

    /// A look-alike with the present bytes of an account: "fake" is owned by another program, "copy" by the same one.
    pub fn twin(&mut self, kind: &str, of: &str, salt: u64) -> String {
        let nm = format!("{}.{}", kind, of);
        let a = self.w.accs[self.w.idx(of)].clone();
        if let Some(&i) = self.w.by_name.get(&nm) {
            self.w.accs[i].data = a.data;
            return nm;
        }
        let k = self.w.fresh_key(salt);
        let owner = if kind == "fake" { self.w.key("EVIL") } else { a.owner };
        self.w.add(&nm, k, owner, a.lamports, a.data);
        nm
    }

    /// A copy of an open-orders account's bytes under a foreign owner (made when needed).
    pub fn fake_oo(&mut self, of: &str, salt: u64) -> String {
        let nm = format!("fake.{}", of);
        let a = self.w.accs[self.w.idx(of)].clone();
        if let Some(&i) = self.w.by_name.get(&nm) {
            self.w.accs[i].data = a.data;
            return nm;
        }
        let evil = self.w.key("EVIL");
        let k = self.w.fresh_key(salt);
        self.w.add(&nm, k, evil, a.lamports, a.data);
        self.names.insert(k.to_bytes(), nm.clone());
        nm
    }

    pub fn run_ix(&mut self, ins: &Instruction) -> Outcome {
        let refs: Vec<Ref> = ins
            .accounts
            .iter()
            .map(|m| Ref { acc: self.w.by_key[&m.pubkey], signer: m.is_signer, writable: m.is_writable })
            .collect();
        let pid = self.pid;
        self.w.run(&pid, &refs, &ins.data, &entry)
    }

    fn nm(&self, k: &[u8; 32]) -> String {
        self.names.get(k).cloned().unwrap_or_else(|| "?".into())
    }

    pub fn observe(&self) -> Obs {
        let mut o = Obs::default();
        for i in 1..=self.cfg.markets.len() {
            let n = format!("M{}", i);
            o.mk.insert(n.clone(), self.observe_market(&n));
        }
        for n in &self.oos {
            o.oo.insert(n.clone(), abi::oo(self.w.accs[self.w.idx(n)].data.bytes()));
        }
        for n in &self.toks {
            o.tok.insert(n.clone(), abi::token_amount(self.w.accs[self.w.idx(n)].data.bytes()));
        }
        for a in &self.w.accs {
            if !a.name.starts_with("fake.") {
                o.lam.insert(a.name.clone(), a.lamports);
            }
        }
        o
    }
    pub fn observe_market(&self, n: &str) -> MObs {
        let b = |s: &str| self.w.accs[self.w.idx(&format!("{}{}", n, s))].data.bytes();
        let (mut bids, r1) = abi::book(b(".bids"));
        let (asks, r2) = abi::book(b(".asks"));
        bids.reverse();
        let q = abi::event_queue(b(".eq"));
        let rq = abi::request_queue(b(".rq"));
        let mut bok = String::from("ok");
        if let Err(e) = r1 {
            bok = format!("bids: {}", e)
        }
        if let Err(e) = r2 {
            bok = format!("asks: {}", e)
        }
        let fl = |d: &[u8], f: u64| &d[..5] == b"serum" && &d[d.len() - 7..] == b"padding" && abi::u64at(d, 5) == f;
        if !fl(b(".bids"), 33) || !fl(b(".asks"), 65) || !fl(b(".rq"), 9) || !fl(b(".eq"), 17) {
            bok = "account flags".into();
        }
        if !q.ok {
            bok = "event queue header".into();
        }
        if rq.2 != 0 {
            bok = "request queue not empty".into();
        }
        MObs { m: abi::mkt(b("")), q, rq, bids, asks, bok }
    }

    // ---------- JSON ----------
    fn j_orders(&self, v: &[abi::Order]) -> String {
        let mut s = String::from("[");
        for (i, o) in v.iter().enumerate() {
            if i > 0 {
                s.push(',')
            }
            let _ = write!(
                s,
                "{{\"id\":\"{}\",\"px\":\"{}\",\"qty\":\"{}\",\"own\":\"{}\",\"sl\":{},\"t\":{},\"cid\":\"{}\"}}",
                o.id, o.price(), o.qty, self.nm(&o.owner), o.slot, o.tier, o.cid
            );
        }
        s.push(']');
        s
    }
    fn j_event(&self, e: &abi::Event) -> String {
        let k = match e.flags & 3 {
            1 => "fill",
            2 => "out",
            _ => "bad",
        };
        let out = k == "out";
        format!(
            "{{\"k\":\"{}\",\"s\":\"{}\",\"mk\":{},\"rel\":{},\"sl\":{},\"t\":{},\"rcv\":\"{}\",\"paid\":\"{}\",\"fee\":\"{}\",\"id\":\"{}\",\"own\":\"{}\",\"cid\":\"{}\"}}",
            k,
            if e.flags & 4 != 0 { "bid" } else { "ask" },
            e.flags & 8 != 0,
            e.flags & 16 != 0,
            e.slot,
            e.tier,
            e.rcv,
            // an out event's second amount only says whether the order is completely out
            if out { (e.paid != 0) as u64 } else { e.paid },
            e.fee,
            e.id,
            self.nm(&e.owner),
            e.cid
        )
    }
    fn j_oo(&self, o: &abi::Oo) -> String {
        let f = match o.flags {
            0 => "none",
            5 => "live",
            256 => "closed",
            _ => "bad",
        };
        let mut s = format!(
            "{{\"f\":\"{}\",\"m\":\"{}\",\"own\":\"{}\",\"cf\":\"{}\",\"ct\":\"{}\",\"pf\":\"{}\",\"pt\":\"{}\",\"rb\":\"{}\",\"junk\":{},\"sl\":[",
            f, self.nm(&o.market), self.nm(&o.owner), o.cf, o.ct, o.pf, o.pt, o.rb, o.junk
        );
        for (i, (n, id, bid, cid)) in o.slots.iter().enumerate() {
            if i > 0 {
                s.push(',')
            }
            let _ = write!(s, "{{\"n\":{},\"id\":\"{}\",\"s\":\"{}\",\"cid\":\"{}\"}}", n, id, if *bid { "bid" } else { "ask" }, cid);
        }
        s.push_str("]}");
        s
    }
    fn j_mkt(&self, m: &MObs) -> String {
        format!(
            "{{\"fl\":{},\"cd\":\"{}\",\"cfee\":\"{}\",\"pd\":\"{}\",\"fees\":\"{}\",\"rr\":\"{}\",\"stat\":{},\"seq\":\"{}\",\"eqh\":{},\"eqn\":{},\"eqs\":\"{}\",\"bok\":\"{}\"}}",
            m.m.flags, m.m.coin_dep, m.m.coin_fees, m.m.pc_dep, m.m.pc_fees, m.m.rebates, m.m.stat, m.rq.3, m.q.head, m.q.count, m.q.seq, m.bok
        )
    }
    fn j_events(&self, v: &[abi::Event]) -> String {
        let p: Vec<String> = v.iter().map(|e| self.j_event(e)).collect();
        format!("[{}]", p.join(","))
    }
    fn j_strs<S: AsRef<str>>(v: &[S]) -> String {
        let p: Vec<String> = v.iter().map(|e| format!("\"{}\"", e.as_ref())).collect();
        format!("[{}]", p.join(","))
    }

    pub fn emit(&mut self, s: &str) {
        if self.mute {
            return;
        }
        self.lines += 1;
        self.emitted += 1;
        writeln!(self.out, "{}", s).unwrap();
    }
    fn emit_setup(&mut self) {
        let mut s = String::from("{\"op\":\"setup\",\"st\":{");
        for (i, c) in self.cfg.markets.iter().enumerate() {
            let n = format!("M{}", i + 1);
            let f = |x: &str| format!("{}{}", n, x);
            let au = |k: u8, x: &str| if c.perm >= k { f(x) } else { "none".into() };
            if i > 0 {
                s.push(',')
            }
            let _ = write!(
                s,
                "\"{}\":{{\"rq\":\"{}\",\"eq\":\"{}\",\"bids\":\"{}\",\"asks\":\"{}\",\"cv\":\"{}\",\"pv\":\"{}\",\"vs\":\"{}\",\"cm\":\"N{}\",\"pm\":\"N{}\",\"cl\":\"{}\",\"pl\":\"{}\",\"perm\":{},\"ooa\":\"{}\",\"pra\":\"{}\",\"cra\":\"{}\",\"eqcap\":{},\"cap\":{},\"stable\":{}}}",
                n, f(".rq"), f(".eq"), f(".bids"), f(".asks"), f(".cv"), f(".pv"), f(".vs"), c.coin_mint, c.pc_mint, c.coin_lot, c.pc_lot,
                c.perm > 0, au(1, ".ooa"), au(2, ".pra"), au(3, ".cra"),
                self.obs.mk[&n].q.cap,
                abi::slab_cap(self.w.accs[self.w.idx(&f(".bids"))].data.bytes().len()),
                c.key.is_some()
            );
        }
        s.push_str("},\"ts\":{");
        let mut first = true;
        for n in &self.toks {
            let d = self.w.accs[self.w.idx(n)].data.bytes();
            if !first {
                s.push(',')
            }
            first = false;
            let nmk = |b: &[u8]| self.nm(&<[u8; 32]>::try_from(b).unwrap());
            let _ = write!(s, "\"{}\":{{\"mint\":\"{}\",\"own\":\"{}\"}}", n, nmk(&d[..32]), nmk(&d[32..64]));
        }
        s.push_str("},");
        // order of the open-orders accounts by raw key words, as the crank must sort them
        let mut so: Vec<String> = self.oos.clone();
        so.sort_by_key(|n| self.key_words(n));
        let _ = write!(s, "\"ord\":{},\"poor\":[", Self::j_strs(&so));
        let poor: Vec<String> = self
            .oos
            .iter()
            .filter(|n| self.w.accs[self.w.idx(n)].lamports < rent(abi::OO_LEN))
            .map(|n| format!("\"{}\"", n))
            .collect();
        s.push_str(&poor.join(","));
        s.push_str("],");
        s.push_str(&self.j_obs_full());
        s.push('}');
        self.emit(&s);
    }
    pub fn key_words(&self, n: &str) -> [u64; 4] {
        let k = self.w.key(n).to_bytes();
        [abi::u64at(&k, 0), abi::u64at(&k, 8), abi::u64at(&k, 16), abi::u64at(&k, 24)]
    }
    fn j_obs_full(&self) -> String {
        let o = &self.obs;
        let mk: Vec<String> = o.mk.iter().map(|(n, m)| format!("\"{}\":{}", n, self.j_mkt(m))).collect();
        let bk: Vec<String> = o
            .mk
            .iter()
            .map(|(n, m)| format!("\"{}\":{{\"b\":{},\"a\":{}}}", n, self.j_orders(&m.bids), self.j_orders(&m.asks)))
            .collect();
        let ev: Vec<String> = o.mk.iter().map(|(n, m)| format!("\"{}\":{{\"pop\":0,\"push\":{}}}", n, self.j_events(&m.q.ev))).collect();
        let oo: Vec<String> = o.oo.iter().map(|(n, x)| format!("\"{}\":{}", n, self.j_oo(x))).collect();
        let tok: Vec<String> = o.tok.iter().map(|(n, x)| format!("\"{}\":\"{}\"", n, x)).collect();
        let lam: Vec<String> = o.lam.iter().map(|(n, x)| format!("\"{}\":\"{}\"", n, x)).collect();
        format!(
            "\"mk\":{{{}}},\"bk\":{{{}}},\"ev\":{{{}}},\"oo\":{{{}}},\"tok\":{{{}}},\"lam\":{{{}}}",
            mk.join(","), bk.join(","), ev.join(","), oo.join(","), tok.join(","), lam.join(",")
        )
    }
    fn j_obs_delta(&self, a: &Obs, b: &Obs) -> String {
        let mut mk = vec![];
        let mut bk = vec![];
        let mut ev = vec![];
        for (n, m) in &b.mk {
            let p = &a.mk[n];
            if self.j_mkt(m) != self.j_mkt(p) {
                mk.push(format!("\"{}\":{}", n, self.j_mkt(m)));
            }
            let mut parts = vec![];
            if m.bids != p.bids {
                parts.push(format!("\"b\":{}", self.j_orders(&m.bids)));
            }
            if m.asks != p.asks {
                parts.push(format!("\"a\":{}", self.j_orders(&m.asks)));
            }
            if !parts.is_empty() {
                bk.push(format!("\"{}\":{{{}}}", n, parts.join(",")));
            }
            if m.q.ev != p.q.ev {
                // lossless: drop `pop` from the front, then append `push`
                let (x, y) = (&p.q.ev, &m.q.ev);
                let moved = (m.q.head + p.q.cap - p.q.head) % p.q.cap.max(1);
                let mut pop = moved.min(x.len() as u64) as usize;
                if x.len() - pop > y.len() || x[pop..] != y[..x.len() - pop] {
                    // find any consistent cut; otherwise replace everything
                    pop = (0..=x.len()).find(|&k| x.len() - k <= y.len() && x[k..] == y[..x.len() - k]).unwrap();
                }
                ev.push(format!("\"{}\":{{\"pop\":{},\"push\":{}}}", n, pop, self.j_events(&y[x.len() - pop..])));
            }
        }
        let oo: Vec<String> =
            b.oo.iter().filter(|(n, x)| a.oo.get(*n) != Some(x)).map(|(n, x)| format!("\"{}\":{}", n, self.j_oo(x))).collect();
        let tok: Vec<String> =
            b.tok.iter().filter(|(n, x)| a.tok.get(*n) != Some(x)).map(|(n, x)| format!("\"{}\":\"{}\"", n, x)).collect();
        let lam: Vec<String> =
            b.lam.iter().filter(|(n, x)| a.lam.get(*n) != Some(x)).map(|(n, x)| format!("\"{}\":\"{}\"", n, x)).collect();
        let mut parts = vec![];
        for (k, v) in [("mk", mk), ("bk", bk), ("ev", ev), ("oo", oo), ("tok", tok), ("lam", lam)].iter() {
            if !v.is_empty() {
                parts.push(format!("\"{}\":{{{}}}", k, v.join(",")));
            }
        }
        parts.join(",")
    }

    // ---------- operations ----------
    pub fn mname(m: usize) -> String {
        format!("M{}", m + 1)
    }
    pub fn base_roles(&self, m: usize, args: &Args, user: &str, oo: &str) -> Vec<(&'static str, String)> {
        let mn = Self::mname(m);
        let f = |s: &str| format!("{}{}", mn, s);
        let c = &self.cfg.markets[m];
        let cw = format!("{}.{}", user, c.coin_mint);
        let pw = format!("{}.{}", user, c.pc_mint);
        let neworder = |side: Side| {
            vec![
                ("market", f("")), ("oo", oo.to_string()), ("rq", f(".rq")), ("eq", f(".eq")), ("bids", f(".bids")),
                ("asks", f(".asks")), ("payer", if side == Side::Bid { pw.clone() } else { cw.clone() }),
                ("owner", user.to_string()), ("cv", f(".cv")), ("pv", f(".pv")), ("spl", "spl".into()), ("rent", "rent".into()),
            ]
        };
        match args {
            Args::New(o) => neworder(o.side),
            Args::Replace(v, _) => neworder(v.get(0).map(|o| o.side).unwrap_or(Side::Bid)),
            Args::Take { .. } => vec![
                ("market", f("")), ("rq", f(".rq")), ("eq", f(".eq")), ("bids", f(".bids")), ("asks", f(".asks")),
                ("cw", cw), ("pw", pw), ("owner", user.to_string()), ("cv", f(".cv")), ("pv", f(".pv")), ("spl", "spl".into()),
                ("vs", f(".vs")),
            ],
            Args::Cancel { .. } | Args::CancelC { .. } | Args::CancelB { .. } => vec![
                ("market", f("")), ("bids", f(".bids")), ("asks", f(".asks")), ("oo", oo.to_string()), ("owner", user.to_string()), ("eq", f(".eq")),
            ],
            Args::Settle => vec![
                ("market", f("")), ("oo", oo.to_string()), ("owner", user.to_string()), ("cv", f(".cv")), ("pv", f(".pv")),
                ("cw", cw), ("pw", pw), ("vs", f(".vs")), ("spl", "spl".into()),
            ],
            Args::Consume { .. } => vec![("market", f("")), ("eq", f(".eq")), ("x1", cw), ("x2", pw)],
            Args::ConsumeP { .. } => vec![("market", f("")), ("eq", f(".eq")), ("auth", f(".cra"))],
            Args::Disable => vec![("market", f("")), ("auth", "DIS".into())],
            Args::Sweep => vec![
                ("market", f("")), ("pv", f(".pv")), ("auth", "SWP".into()), ("dst", format!("R.{}", c.pc_mint)), ("vs", f(".vs")), ("spl", "spl".into()),
            ],
            Args::Close => vec![("oo", oo.to_string()), ("owner", user.to_string()), ("dest", user.to_string()), ("market", f(""))],
            Args::InitOo => {
                let mut v = vec![("oo", oo.to_string()), ("owner", user.to_string()), ("market", f("")), ("rent", "rent".into())];
                if c.perm > 0 {
                    v.push(("auth", f(".ooa")));
                }
                v
            }
            Args::Prune { .. } => vec![
                ("market", f("")), ("bids", f(".bids")), ("asks", f(".asks")), ("auth", f(".pra")), ("oo", oo.to_string()),
                ("ooowner", user.to_string()), ("eq", f(".eq")),
            ],
        }
    }
    pub fn op(&self, m: usize, args: Args, user: &str, oo: &str) -> Op {
        let roles = self.base_roles(m, &args, user, oo);
        Op { m, args, roles, unsign: vec![], note: "" }
    }

    fn data_new(o: &NewOrder) -> ix::NewOrderInstructionV3 {
        ix::NewOrderInstructionV3 {
            side: o.side,
            limit_price: nz(o.price),
            max_coin_qty: nz(o.qty),
            max_native_pc_qty_including_fees: nz(o.pc),
            self_trade_behavior: o.stb,
            order_type: o.ty,
            client_order_id: o.cid,
            limit: o.limit,
            max_ts: o.max_ts,
        }
    }

    /// Build through the client builders; account metas (writability, signer bits) are the builders'.
    fn build(&self, op: &Op) -> Instruction {
        let k = |r: &str| -> Pubkey {
            let n = op.get(r);
            if n.is_empty() { Pubkey::default() } else { self.w.key(n) }
        };
        let ko = |r: &str| -> Option<Pubkey> {
            let n = op.get(r);
            if n.is_empty() { None } else { Some(self.w.key(n)) }
        };
        let p = &self.pid;
        let new_ix = |o: &NewOrder| {
            ix::new_order(
                &k("market"), &k("oo"), &k("rq"), &k("eq"), &k("bids"), &k("asks"), &k("payer"), &k("owner"), &k("cv"), &k("pv"), &k("spl"),
                &k("rent"), ko("disc").as_ref(), p, o.side, nz(o.price), nz(o.qty), o.ty, o.cid, o.stb, o.limit, nz(o.pc), o.max_ts,
            )
            .unwrap()
        };
        let oos: Vec<Pubkey> = op.roles.iter().filter(|r| r.0 == "oos").map(|r| self.w.key(&r.1)).collect();
        match &op.args {
            Args::New(o) => new_ix(o),
            Args::Replace(v, single) => {
                let mut i = new_ix(&v[0]);
                i.data = if *single {
                    ix::MarketInstruction::ReplaceOrderByClientId(Self::data_new(&v[0])).pack()
                } else {
                    ix::MarketInstruction::ReplaceOrdersByClientIds(v.iter().map(Self::data_new).collect()).pack()
                };
                i
            }
            Args::Take { side, price, qty, pc, min_coin, min_pc, limit } => ix::send_take(
                &k("market"), &k("rq"), &k("eq"), &k("bids"), &k("asks"), &k("cw"), &k("pw"), &k("owner"), &k("cv"), &k("pv"), &k("spl"), &k("vs"),
                ko("disc").as_ref(), p, *side, nz(*price), nz(*qty), nz(*pc), *min_coin, *min_pc, *limit,
            )
            .unwrap(),
            Args::Cancel { side, id } => {
                ix::cancel_order(p, &k("market"), &k("bids"), &k("asks"), &k("oo"), &k("owner"), &k("eq"), *side, *id).unwrap()
            }
            Args::CancelC { cid } => {
                ix::cancel_order_by_client_order_id(p, &k("market"), &k("bids"), &k("asks"), &k("oo"), &k("owner"), &k("eq"), *cid).unwrap()
            }
            Args::CancelB { cids } => {
                let mut a = [0u64; 8];
                for (x, y) in a.iter_mut().zip(cids) {
                    *x = *y
                }
                ix::cancel_orders_by_client_order_ids(p, &k("market"), &k("bids"), &k("asks"), &k("oo"), &k("owner"), &k("eq"), a).unwrap()
            }
            Args::Settle => ix::settle_funds(
                p, &k("market"), &k("spl"), &k("oo"), &k("owner"), &k("cv"), &k("cw"), &k("pv"), &k("pw"), ko("ref").as_ref(), &k("vs"),
            )
            .unwrap(),
            Args::Consume { limit } => {
                ix::consume_events(p, oos.iter().collect(), &k("market"), &k("eq"), &k("x1"), &k("x2"), *limit).unwrap()
            }
            Args::ConsumeP { limit } => {
                ix::consume_events_permissioned(p, oos.iter().collect(), &k("market"), &k("eq"), &k("auth"), *limit).unwrap()
            }
            Args::Disable => ix::disable_market(p, &k("market"), &k("auth")).unwrap(),
            Args::Sweep => ix::sweep_fees(p, &k("market"), &k("pv"), &k("auth"), &k("dst"), &k("vs"), &k("spl")).unwrap(),
            Args::Close => ix::close_open_orders(p, &k("oo"), &k("owner"), &k("dest"), &k("market")).unwrap(),
            Args::InitOo => ix::init_open_orders(p, &k("oo"), &k("owner"), &k("market"), ko("auth").as_ref()).unwrap(),
            Args::Prune { limit } => {
                ix::prune(p, &k("market"), &k("bids"), &k("asks"), &k("auth"), &k("oo"), &k("ooowner"), &k("eq"), *limit).unwrap()
            }
        }
    }

    fn j_new(o: &NewOrder) -> String {
        format!(
            "{{\"s\":\"{}\",\"px\":\"{}\",\"qty\":\"{}\",\"pc\":\"{}\",\"ty\":\"{}\",\"cid\":\"{}\",\"stb\":\"{}\",\"lim\":{},\"ts\":\"{}\"}}",
            side_s(o.side), o.price, o.qty, o.pc, ty_s(o.ty), o.cid, stb_s(o.stb), o.limit, o.max_ts
        )
    }
    pub fn kind(a: &Args) -> &'static str {
        match a {
            Args::New(_) => "new",
            Args::Replace(_, _) => "replace",
            Args::Take { .. } => "take",
            Args::Cancel { .. } => "cancel",
            Args::CancelC { .. } => "cancelc",
            Args::CancelB { .. } => "cancelb",
            Args::Settle => "settle",
            Args::Consume { .. } => "consume",
            Args::ConsumeP { .. } => "consumep",
            Args::Disable => "disable",
            Args::Sweep => "sweep",
            Args::Close => "close",
            Args::InitOo => "initoo",
            Args::Prune { .. } => "prune",
        }
    }
    fn j_args(a: &Args) -> String {
        match a {
            Args::New(o) => format!("\"o\":{}", Self::j_new(o)),
            Args::Replace(v, _) => {
                let p: Vec<String> = v.iter().map(Self::j_new).collect();
                format!("\"os\":[{}]", p.join(","))
            }
            Args::Take { side, price, qty, pc, min_coin, min_pc, limit } => format!(
                "\"o\":{{\"s\":\"{}\",\"px\":\"{}\",\"qty\":\"{}\",\"pc\":\"{}\",\"minc\":\"{}\",\"minp\":\"{}\",\"lim\":{}}}",
                side_s(*side), price, qty, pc, min_coin, min_pc, limit
            ),
            Args::Cancel { side, id } => format!("\"s\":\"{}\",\"id\":\"{}\"", side_s(*side), id),
            Args::CancelC { cid } => format!("\"cid\":\"{}\"", cid),
            Args::CancelB { cids } => {
                let p: Vec<String> = cids.iter().take(8).filter(|c| **c != 0).map(|c| format!("\"{}\"", c)).collect();
                format!("\"cids\":[{}]", p.join(","))
            }
            Args::Consume { limit } | Args::ConsumeP { limit } | Args::Prune { limit } => format!("\"lim\":{}", limit),
            _ => "\"z\":0".into(),
        }
    }

    pub fn exec(&mut self, op: &Op) -> Outcome {
        let mut ins = self.build(op);
        // strip signatures
        for r in &op.unsign {
            let key = self.w.key(op.get(r));
            for m in ins.accounts.iter_mut() {
                if m.pubkey == key {
                    m.is_signer = false;
                }
            }
        }
        self.exec_raw(op, ins)
    }
    pub fn exec_raw(&mut self, op: &Op, ins: Instruction) -> Outcome {
        let sig: Vec<String> = {
            let mut v: Vec<String> =
                ins.accounts.iter().filter(|m| m.is_signer).map(|m| self.w.accs[self.w.by_key[&m.pubkey]].name.clone()).collect();
            v.sort();
            v.dedup();
            v
        };
        self.record(op, &sig, |d, _| d.run_ix(&ins))
    }
    /// Run an operation in some way and record it: what was asked, the outcome, and what changed.
    pub fn record(&mut self, op: &Op, sig: &[String], run: impl FnOnce(&mut Dex, &mut String) -> Outcome) -> Outcome {
        let kind = Self::kind(&op.args);
        let acc: Vec<String> = op.roles.iter().filter(|r| r.0 != "oos").map(|r| format!("\"{}\":\"{}\"", r.0, r.1)).collect();
        let oos: Vec<&String> = op.roles.iter().filter(|r| r.0 == "oos").map(|r| &r.1).collect();
        let mut s = format!(
            "{{\"op\":\"{}\",\"acc\":{{{}}},\"sig\":{},\"now\":\"{}\",{}",
            kind, acc.join(","), Self::j_strs(sig), self.w.clock, Self::j_args(&op.args)
        );
        if kind.starts_with("consume") {
            let words: Vec<[u64; 4]> = oos.iter().map(|n| self.key_words(n)).collect();
            let sorted = words.windows(2).all(|w| w[0] <= w[1]);
            let _ = write!(s, ",\"oos\":{},\"sorted\":{}", Self::j_strs(&oos), sorted);
        }
        if !op.note.is_empty() {
            let _ = write!(s, ",\"note\":\"{}\"", op.note);
        }
        // what is about to run is on disk before it runs (crashes and hangs are attributable)
        crate::mark(&s);
        let r = run(self, &mut s);
        let after = self.observe();
        let delta = self.j_obs_delta(&self.obs, &after);
        let (res, err) = match &r {
            Outcome::Ok => ("ok", String::new()),
            Outcome::Err(e) => ("err", e.replace('"', "'").replace('\\', "/").replace('\n', " ")),
        };
        let _ = write!(s, ",\"res\":\"{}\",\"err\":\"{}\"", res, err);
        if !delta.is_empty() {
            s.push(',');
            s.push_str(&delta);
        }
        s.push('}');
        self.obs = after;
        let e = self.kinds.entry(kind.to_string()).or_insert((0, 0));
        if r == Outcome::Ok {
            e.0 += 1;
            self.oks += 1;
        } else {
            e.1 += 1;
        }
        self.emit(&s);
        self.last = r.clone();
        r
    }
    /// Run without recording.
    pub fn exec_quiet(&mut self, op: &Op) -> Outcome {
        let muted = std::mem::replace(&mut self.mute, true);
        let (k, o) = (self.kinds.clone(), self.oks);
        let r = self.exec(op);
        self.mute = muted;
        self.kinds = k;
        self.oks = o;
        r
    }
    /// What an instruction would do: run it, look, undo it.
    pub fn probe<T>(&mut self, op: &Op, look: impl FnOnce(&Obs, &Obs) -> T) -> Option<T> {
        let (accs, obs, last) = (self.w.accs.clone(), self.obs.clone(), self.last.clone());
        let r = self.exec_quiet(op);
        let v = if r == Outcome::Ok { Some(look(&obs, &self.obs)) } else { None };
        self.w.accs = accs;
        self.obs = obs;
        self.last = last;
        v
    }
    /// The current state in full, to be returned to with emit_reset.
    pub fn emit_base(&mut self) {
        let s = format!("{{\"op\":\"base\",{}}}", self.j_obs_full());
        self.emit(&s);
    }
    pub fn emit_reset(&mut self, at: u64) {
        self.emit(&format!("{{\"op\":\"reset\",\"at\":{}}}", at));
    }
    pub fn put64(&mut self, acc: &str, at: usize, v: u64) {
        let i = self.w.idx(acc);
        self.w.accs[i].data.bytes_mut()[at..at + 8].copy_from_slice(&v.to_le_bytes());
    }
    /// Out-of-band token donation to a vault (anyone can send tokens to any account).
    pub fn donate(&mut self, tok: &str, amt: u64) {
        let i = self.w.idx(tok);
        let b = self.w.accs[i].data.bytes_mut();
        let v = abi::token_amount(b).saturating_add(amt);
        b[64..72].copy_from_slice(&v.to_le_bytes());
        self.ext("donate");
    }
    /// A closed account is garbage-collected and its owner creates it afresh.
    pub fn recreate(&mut self, oo: &str) {
        let i = self.w.idx(oo);
        self.w.accs[i].data = Data::new(abi::OO_LEN);
        self.w.accs[i].lamports = rent(abi::OO_LEN);
        self.ext("recreate");
    }
    /// Record an environment step (not an instruction).
    pub fn ext(&mut self, what: &str) {
        let after = self.observe();
        let delta = self.j_obs_delta(&self.obs, &after);
        self.obs = after;
        let s = if delta.is_empty() { format!("{{\"op\":\"{}\"}}", what) } else { format!("{{\"op\":\"{}\",{}}}", what, delta) };
        self.emit(&s);
    }
    pub fn metas_swap(ins: &mut Instruction, from: &Pubkey, to: &Pubkey) {
        for m in ins.accounts.iter_mut() {
            if m.pubkey == *from {
                *m = AccountMeta { pubkey: *to, is_signer: m.is_signer, is_writable: m.is_writable };
            }
        }
    }
}
