use crate::abi;
use crate::world::{Data, Ref, Rng, World, CPIS};
use serum_dex_permissioned::serum_dex::instruction as dix;
use serum_dex_permissioned::{Context, Logger, MarketMiddleware, MarketProxy, OpenOrdersPda, ReferralFees};
use solana_program::{
    account_info::AccountInfo, entrypoint::ProgramResult, program_error::ProgramError, program_option::COption, program_pack::Pack, pubkey::Pubkey, rent::Rent,
    system_program,
};
use spl_token::state::{Account as Tok, AccountState, Mint};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Write;

const USERS: [&str; 3] = ["U1", "U2", "U3"];
const MKTS: [&str; 3] = ["M1", "M2", "M3"];
const OO_LEN: usize = 3228;

fn rent(n: usize) -> u64 {
    Rent::default().minimum_balance(n)
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

// ---- middleware of the harness's own
thread_local! {
    static TAG: RefCell<Pubkey> = RefCell::new(Pubkey::default());
    static PV: RefCell<[Pubkey; 3]> = RefCell::new([Pubkey::default(); 3]); // vault 1, vault 2, their signer
    static CB: RefCell<Vec<(Vec<Pubkey>, Vec<u8>, Vec<u8>)>> = RefCell::new(vec![]);
}
/// every request must present a pass, which is not forwarded
struct Tag;
impl Tag {
    fn strip(&self, c: &mut Context) -> ProgramResult {
        if *c.accounts[0].key != TAG.with(|t| *t.borrow()) {
            return Err(ProgramError::Custom(77));
        }
        c.accounts = c.accounts[1..].to_vec();
        Ok(())
    }
}
impl MarketMiddleware for Tag {
    fn init_open_orders(&self, c: &mut Context) -> ProgramResult { self.strip(c) }
    fn new_order_v3(&self, c: &mut Context, _: &mut dix::NewOrderInstructionV3) -> ProgramResult { self.strip(c) }
    fn cancel_order_v2(&self, c: &mut Context, _: &mut dix::CancelOrderInstructionV2) -> ProgramResult { self.strip(c) }
    fn cancel_order_by_client_id_v2(&self, c: &mut Context, _: &mut u64) -> ProgramResult { self.strip(c) }
    fn settle_funds(&self, c: &mut Context) -> ProgramResult { self.strip(c) }
    fn close_open_orders(&self, c: &mut Context) -> ProgramResult { self.strip(c) }
    fn consume_events(&self, c: &mut Context, _: &mut u16) -> ProgramResult { self.strip(c) }
    fn consume_events_permissioned(&self, c: &mut Context, _: &mut u16) -> ProgramResult { self.strip(c) }
    fn prune(&self, c: &mut Context, _: &mut u16) -> ProgramResult { self.strip(c) }
    fn fallback(&self, c: &mut Context) -> ProgramResult { self.strip(c) }
}
/// signs as prune and crank authority; caps the crank limit
struct Auth;
fn auth_seeds(c: &Context, what: &[u8], m: &Pubkey) -> Vec<Vec<u8>> {
    let (_, b) = Pubkey::find_program_address(&[what, c.dex_program_id.as_ref(), m.as_ref()], c.program_id);
    vec![what.to_vec(), c.dex_program_id.as_ref().to_vec(), m.as_ref().to_vec(), vec![b]]
}
impl MarketMiddleware for Auth {
    fn consume_events(&self, _: &mut Context, l: &mut u16) -> ProgramResult {
        *l = (*l).min(7);
        Ok(())
    }
    fn consume_events_permissioned(&self, c: &mut Context, l: &mut u16) -> ProgramResult {
        let n = c.accounts.len();
        let s = auth_seeds(c, b"consume", c.accounts[n - 3].key);
        c.seeds.push(s);
        c.accounts[n - 1].is_signer = true;
        *l = (*l).min(7);
        Ok(())
    }
    fn prune(&self, c: &mut Context, _: &mut u16) -> ProgramResult {
        let s = auth_seeds(c, b"prune", c.accounts[0].key);
        c.seeds.push(s);
        c.accounts[3].is_signer = true;
        Ok(())
    }
}
/// tokens moved before and after the order, and a callback at the end
struct Extra;
fn note<'a, 'info>(_p: &'a Pubkey, a: Vec<AccountInfo<'info>>, d: Vec<u8>, args: Vec<u8>) -> ProgramResult {
    CB.with(|c| c.borrow_mut().push((a.iter().map(|x| *x.key).collect(), d, args.clone())));
    if args == [9] { Err(ProgramError::Custom(78)) } else { Ok(()) }
}
impl Extra {
    fn go(&self, c: &mut Context, arg: u8) -> ProgramResult {
        let [v1, v2, s] = PV.with(|p| *p.borrow());
        let (_, b) = Pubkey::find_program_address(&[b"pv"], c.program_id);
        let n = c.accounts.len();
        let infos = c.accounts[n - 4..].to_vec();
        let seeds = vec![vec![b"pv".to_vec(), vec![b]]];
        let t = |a: &Pubkey, b: &Pubkey, n: u64| spl_token::instruction::transfer(&spl_token::ID, a, b, &s, &[], n);
        c.pre_instructions.push((t(&v1, &v2, 3)?, infos.clone(), seeds.clone()));
        c.post_instructions.push((t(&v2, &v1, 2)?, infos.clone(), seeds));
        c.post_callbacks.push((note, infos[..1].to_vec(), vec![arg]));
        c.accounts.truncate(n - 4);
        Ok(())
    }
}
impl MarketMiddleware for Extra {
    fn cancel_order_v2(&self, c: &mut Context, _: &mut dix::CancelOrderInstructionV2) -> ProgramResult { self.go(c, 1) }
    fn settle_funds(&self, c: &mut Context) -> ProgramResult { self.go(c, 2) }
    fn new_order_v3(&self, c: &mut Context, i: &mut dix::NewOrderInstructionV3) -> ProgramResult {
        let a = if i.client_order_id == 13 { 9 } else { 3 };
        i.limit = i.limit.min(9);
        self.go(c, a)
    }
}

/// one call
#[derive(Clone)]
struct Call {
    cfg: Vec<&'static str>,
    direct: bool,
    pre: Vec<u8>,
    kind: &'static str,
    args: Args,
    /// payload sent instead of the encoding of kind/args
    raw: Option<Vec<u8>>,
    ac: Vec<(String, bool, bool)>,
}
#[derive(Clone, Default)]
struct Args {
    ask: bool,
    price: u64,
    qty: u64,
    pc: u64,
    ty: u32,
    stb: u32,
    cid: u64,
    limit: u16,
    ts: i64,
    id: u128,
    short: bool,
}
impl Args {
    fn encode(&self, kind: &str, limit: u16) -> Vec<u8> {
        let tag = match kind {
            "init" => 15u32, "new" => 10, "cancel" => 11, "cancelc" => 12, "settle" => 5, "close" => 14, "consume" => 3, "consumep" => 17, "prune" => 16,
            _ => unreachable!(),
        };
        let mut d = vec![0u8];
        d.extend(&tag.to_le_bytes());
        match kind {
            "new" => {
                d.extend(&(self.ask as u32).to_le_bytes());
                d.extend(&self.price.to_le_bytes());
                d.extend(&self.qty.to_le_bytes());
                d.extend(&self.pc.to_le_bytes());
                d.extend(&self.stb.to_le_bytes());
                d.extend(&self.ty.to_le_bytes());
                d.extend(&self.cid.to_le_bytes());
                d.extend(&limit.to_le_bytes());
                if !self.short { d.extend(&self.ts.to_le_bytes()) }
            }
            "cancel" => {
                d.extend(&(self.ask as u32).to_le_bytes());
                d.extend(&self.id.to_le_bytes());
            }
            "cancelc" => d.extend(&self.cid.to_le_bytes()),
            "consume" | "consumep" | "prune" => d.extend(&limit.to_le_bytes()),
            _ => {}
        }
        d
    }
}
/// the same order without an explicit expiry is the order that never expires
fn norm(mut d: Vec<u8>) -> Vec<u8> {
    if d.len() == 51 && d[1] == 10 { d.extend(&i64::MAX.to_le_bytes()) }
    d
}

pub struct Proxy {
    pub out: Box<dyn Write>,
    pub lines: u64,
    pub ok: u64,
    pub kinds: BTreeMap<String, (u64, u64)>,
    r: Rng,
    w: World,
    seed: u64,
    pid: Pubkey,
    names: BTreeMap<[u8; 32], String>,
    last: BTreeMap<String, String>,
    bumps: BTreeMap<String, u8>,
    base: Vec<crate::world::Acc>,
    head: String,
}

impl Proxy {
    pub fn new(seed: u64, out: Box<dyn Write>) -> Self {
        Proxy {
            out, lines: 0, ok: 0, kinds: BTreeMap::new(), r: Rng(seed ^ 0x77aa), w: World::default(), seed: seed.wrapping_mul(7919), pid: Pubkey::default(),
            names: BTreeMap::new(), last: BTreeMap::new(), bumps: BTreeMap::new(), base: vec![], head: String::new(),
        }
    }
    fn key(&mut self) -> Pubkey {
        self.w.fresh_key(self.seed)
    }
    fn wallet(&mut self, n: &str, lam: u64) {
        let k = self.key();
        self.w.add(n, k, system_program::ID, lam, Data::new(0));
    }
    fn tok(&mut self, n: &str, mint: &str, own: &str, amt: u64) {
        let t = Tok { mint: self.w.key(mint), owner: self.w.key(own), amount: amt, state: AccountState::Initialized, ..Tok::default() };
        let mut d = Data::new(165);
        Tok::pack(t, d.bytes_mut()).unwrap();
        let k = self.key();
        self.w.add(n, k, spl_token::ID, rent(165), d);
    }
    /// canonical derived address and, as a decoy, the next one down
    fn derive(&mut self, n: &str, seeds: &[&[u8]], cap: usize) {
        let (k, b) = Pubkey::find_program_address(seeds, &self.pid);
        self.w.add(n, k, system_program::ID, 0, Data::cap(0, cap));
        self.bumps.insert(n.into(), b);
        for b2 in (0..b).rev() {
            let x = [b2];
            let mut s = seeds.to_vec();
            s.push(&x);
            if let Ok(k) = Pubkey::create_program_address(&s, &self.pid) {
                let n2 = format!("{}~", n);
                self.w.add(&n2, k, system_program::ID, 0, Data::cap(0, cap));
                self.bumps.insert(n2, b2);
                break;
            }
        }
    }
    fn world(&mut self, lots: (u64, u64)) {
        self.w = World::default();
        self.w.clock = 1_600_000_000;
        self.seed = self.seed.wrapping_add(0x51ed27);
        self.bumps.clear();
        let dex = anchor_spl::dex::ID;
        let loader = solana_program::bpf_loader::ID;
        self.pid = self.key();
        let pid = self.pid;
        self.w.add("prog", pid, loader, 1, Data::new(0));
        self.w.add("dex", dex, loader, 1, Data::new(0));
        let k = self.key();
        self.w.add("dex2", k, loader, 1, Data::new(0));
        self.w.add("spl", spl_token::ID, loader, 1, Data::new(0));
        self.w.add("sys", system_program::ID, loader, 1, Data::new(0));
        let mut rd = bincode::serialize(&Rent::default()).unwrap();
        rd.truncate(17);
        self.w.add("rent", solana_program::sysvar::rent::ID, solana_program::sysvar::ID, 1, Data::from(&rd));
        for n in &["U1", "U2", "U3", "R", "X", "TAG"] {
            self.wallet(n, 9_000_000_000);
        }
        self.wallet("POOR", rent(OO_LEN) - 1);
        for n in &["N0", "N1"] {
            let m = Mint { mint_authority: COption::None, supply: 0, decimals: 0, is_initialized: true, freeze_authority: COption::None };
            let mut d = Data::new(82);
            Mint::pack(m, d.bytes_mut()).unwrap();
            let k = self.key();
            self.w.add(n, k, spl_token::ID, rent(82), d);
        }
        for (i, m) in MKTS.iter().enumerate() {
            self.market(m, [3, 2, 0][i], lots);
        }
        for u in USERS.iter() {
            self.tok(&format!("{}.0", u), "N0", u, 1_000_000_000);
            self.tok(&format!("{}.1", u), "N1", u, 1_000_000_000);
            for m in MKTS.iter() {
                let (mk, uk) = (self.w.key(m), self.w.key(u));
                self.derive(&format!("oo:{}:{}", m, u), &[b"open-orders", dex.as_ref(), mk.as_ref(), uk.as_ref()], OO_LEN);
            }
            // an ordinary account on the open market, of which the user himself is the owner
            let k = self.key();
            let n = format!("po:M3:{}", u);
            self.w.add(&n, k, dex, rent(OO_LEN), Data::new(OO_LEN));
            let i = dix::init_open_orders(&dex, &k, &self.w.key(u), &self.w.key("M3"), None).unwrap();
            self.direct(&i);
        }
        for n in &["R", "X"] {
            self.tok(&format!("{}.0", n), "N0", n, 5000);
            self.tok(&format!("{}.1", n), "N1", n, 5000);
        }
        self.derive("pvs", &[b"pv"], 0);
        self.tok("PV1", "N1", "pvs", 500);
        self.tok("PV2", "N1", "pvs", 500);
        TAG.with(|t| *t.borrow_mut() = self.w.key("TAG"));
        PV.with(|t| *t.borrow_mut() = [self.w.key("PV1"), self.w.key("PV2"), self.w.key("pvs")]);
        self.names = self.w.accs.iter().map(|a| (a.key.to_bytes(), a.name.clone())).collect();
        self.last.clear();
        let st = self.state();
        let b: Vec<String> = self.bumps.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
        let lam = rent(OO_LEN);
        self.head = format!("{{\"op\":\"world\",\"bumps\":{{{}}},\"rent\":\"{}\",", b.join(","), lam);
        self.base = self.w.accs.clone();
        let l = format!("{}\"w\":{{{}}}}}", self.head, st);
        self.line(&l);
    }
    fn market(&mut self, m: &str, perm: usize, lots: (u64, u64)) {
        let dex = anchor_spl::dex::ID;
        let mlen = if perm > 0 { 1476 } else { 388 };
        let k = self.key();
        self.w.add(m, k, dex, rent(mlen), Data::new(mlen));
        let n = |s: &str| format!("{}.{}", m, s);
        let up = |l: usize| l + (4 + 8 - l % 8) % 8;
        for (s, l) in [("rq", 12 + 32 + 80 * 8), ("eq", 12 + 32 + 88 * 130), ("bids", 12 + 40 + 72 * 202), ("asks", 12 + 40 + 72 * 202)].iter() {
            let k = self.key();
            self.w.add(&n(s), k, dex, rent(up(*l)), Data::new(up(*l)));
        }
        let mut nonce = 0u64;
        let vs = loop {
            if let Ok(p) = Pubkey::create_program_address(&[k.as_ref(), &nonce.to_le_bytes()], &dex) { break p }
            nonce += 1;
        };
        self.w.add(&n("vs"), vs, system_program::ID, 0, Data::new(0));
        self.tok(&n("cv"), "N0", &n("vs"), 0);
        self.tok(&n("pv"), "N1", &n("vs"), 0);
        let mut auth = vec![];
        for (s, seed) in [("ia", &b"open-orders-init"[..]), ("pa", b"prune"), ("ca", b"consume")].iter() {
            self.derive(&n(s), &[seed, dex.as_ref(), k.as_ref()], 0);
            auth.push(self.w.key(&n(s)));
        }
        auth.truncate(perm);
        let w = &self.w;
        let i = dix::initialize_market(
            &k, &dex, &w.key("N0"), &w.key("N1"), &w.key(&n("cv")), &w.key(&n("pv")), auth.get(0), auth.get(1), auth.get(2), &w.key(&n("bids")), &w.key(&n("asks")),
            &w.key(&n("rq")), &w.key(&n("eq")), lots.0, lots.1, nonce, 0,
        )
        .unwrap();
        self.direct(&i);
    }
    /// straight to the exchange (set-up)
    fn direct(&mut self, i: &solana_program::instruction::Instruction) {
        let refs: Vec<Ref> = i.accounts.iter().map(|m| Ref { acc: self.w.by_key[&m.pubkey], signer: m.is_signer, writable: m.is_writable }).collect();
        let ok = self.w.run(&anchor_spl::dex::ID, &refs, &i.data, &dex_entry);
        assert!(ok, "set-up refused by the exchange");
    }

    // ---- observation
    fn nm(&self, k: &[u8]) -> String {
        if k.iter().all(|b| *b == 0) { return "".into() }
        let mut a = [0u8; 32];
        a.copy_from_slice(k);
        self.names.get(&a).cloned().unwrap_or_else(|| "?".into())
    }
    fn describe(&self, i: usize) -> String {
        let a = &self.w.accs[i];
        let d = a.data.bytes();
        let c = if a.owner == spl_token::ID && d.len() == 165 {
            let t = Tok::unpack_unchecked(d).unwrap();
            let del = match t.delegate { COption::Some(k) => self.nm(k.as_ref()), _ => "".into() };
            format!("\"k\":\"token\",\"own\":\"{}\",\"mint\":\"{}\",\"amt\":\"{}\",\"del\":\"{}\",\"damt\":\"{}\"", self.nm(t.owner.as_ref()), self.nm(t.mint.as_ref()), t.amount, del, t.delegated_amount)
        } else if a.owner == anchor_spl::dex::ID && d.len() == OO_LEN {
            let o = abi::oo(d);
            format!("\"k\":\"oo\",\"fl\":{},\"own\":\"{}\",\"mkt\":\"{}\",\"h\":\"{:x}\"", o.flags, self.nm(&o.owner), self.nm(&o.market), abi::fnv(0, d))
        } else {
            format!("\"k\":\"raw\",\"h\":\"{:x}\"", abi::fnv(0, d))
        };
        let lot = if d.len() >= 357 { abi::u64at(d, 349) } else { 0 };
        let r = d.len() >= 64 && d[32..64] == *self.w.key("R").as_ref();
        let c = format!("\"lot\":\"{}\",\"r\":{},{}", lot, r, c);
        format!("{{\"o\":\"{}\",\"len\":{},\"lam\":\"{}\",{}}}", if a.owner == system_program::ID { "sys".into() } else { self.nm(a.owner.as_ref()) }, d.len(), a.lamports, c)
    }
    /// what changed since the last observation
    fn state(&mut self) -> String {
        let mut v = vec![];
        for i in 0..self.w.accs.len() {
            let s = self.describe(i);
            let n = self.w.accs[i].name.clone();
            if self.last.get(&n) != Some(&s) {
                v.push(format!("\"{}\":{}", n, s));
                self.last.insert(n, s);
            }
        }
        v.join(",")
    }
    fn line(&mut self, l: &str) {
        writeln!(self.out, "{}", l).unwrap();
        self.lines += 1;
    }
    fn cpi_args(&self, prog: &Pubkey, d: &[u8]) -> String {
        use spl_token::instruction::TokenInstruction as T;
        if *prog == spl_token::ID {
            return match T::unpack(d) {
                Ok(T::Approve { amount }) => format!("approve {}", amount),
                Ok(T::Revoke) => "revoke".into(),
                Ok(T::Transfer { amount }) => format!("transfer {}", amount),
                _ => format!("other {}", hex(d)),
            };
        }
        hex(&norm(d.to_vec()))
    }
    fn call(&mut self, c: &Call) -> bool {
        let mut data = if c.direct { vec![] } else { c.pre.clone() };
        let body = c.raw.clone().unwrap_or_else(|| if c.kind == "junk" || c.kind == "other" { vec![] } else { c.args.encode(c.kind, c.args.limit) });
        data.extend(&body);
        let refs: Vec<Ref> = c.ac.iter().map(|a| Ref { acc: self.w.idx(&a.0), signer: a.1, writable: a.2 }).collect();
        // what the exchange must receive, for every limit a middleware may have set
        let (kind, canon) = if c.raw.is_some() {
            (c.kind, vec![String::new()])
        } else {
            (c.kind, [c.args.limit, c.args.limit.min(7), c.args.limit.min(9)].iter().map(|l| hex(&norm(c.args.encode(c.kind, *l)))).collect())
        };
        let ac: Vec<String> = c.ac.iter().map(|a| format!("{{\"n\":\"{}\",\"s\":{},\"w\":{}}}", a.0, a.1, a.2)).collect();
        let head = format!(
            "\"op\":\"{}\",\"cfg\":{:?},\"data\":{:?},\"body\":{},\"kind\":\"{}\",\"ask\":{},\"qty\":\"{}\",\"pc\":\"{}\",\"cid\":{},\"canon\":{:?},\"ac\":[{}]",
            if c.direct { "direct" } else { "call" }, c.cfg, data, body.len(), kind, c.args.ask, c.args.qty, c.args.pc, if c.args.cid == 13 { 13 } else { 0 }, canon, ac.join(",")
        );
        crate::mark(&head);
        CB.with(|x| x.borrow_mut().clear());
        let pid = if c.direct { anchor_spl::dex::ID } else { self.pid };
        let referral = self.w.key("R");
        let cfg = c.cfg.clone();
        let ok = if c.direct {
            self.w.run(&pid, &refs, &data, &dex_entry)
        } else {
            self.w.run(&pid, &refs, &data, &|p, a, d| {
                let (mut log, mut rf, mut pda, mut tag, mut auth, mut extra) = (Logger, ReferralFees::new(referral), OpenOrdersPda::new(), Tag, Auth, Extra);
                let mut m: Vec<(&str, Option<&mut dyn MarketMiddleware>)> =
                    vec![("log", Some(&mut log)), ("ref", Some(&mut rf)), ("pda", Some(&mut pda)), ("tag", Some(&mut tag)), ("auth", Some(&mut auth)), ("extra", Some(&mut extra))];
                let mut p0 = MarketProxy::new();
                for n in &cfg {
                    p0 = p0.middleware(m.iter_mut().find(|x| x.0 == *n).unwrap().1.take().unwrap());
                }
                p0.run(p, a, d)
            })
        };
        let cpis: Vec<String> = CPIS.with(|x| x.borrow().clone()).iter().map(|x| {
            let m: Vec<String> = x.metas.iter().map(|m| format!("{{\"n\":\"{}\",\"s\":{},\"w\":{}}}", self.nm2(&m.0), m.1, m.2)).collect();
            format!("{{\"p\":\"{}\",\"d\":\"{}\",\"ok\":{},\"ac\":[{}]}}", self.nm2(&x.prog), self.cpi_args(&x.prog, &x.data), x.ok, m.join(","))
        }).collect();
        let cbs: Vec<String> = CB.with(|x| x.borrow().clone()).iter().map(|x| {
            let n: Vec<String> = x.0.iter().map(|k| self.nm2(k)).collect();
            format!("{{\"ac\":{:?},\"d\":\"{}\",\"a\":{:?}}}", n, hex(&norm(x.1.clone())), x.2)
        }).collect();
        let st = self.state();
        let l = format!("{{{},\"ok\":{},\"cpis\":[{}],\"cb\":[{}],\"w\":{{{}}}}}", head, ok, if c.direct { String::new() } else { cpis.join(",") }, cbs.join(","), st);
        self.line(&l);
        let k = self.kinds.entry(format!("{}{}", if c.direct { "direct " } else { "" }, c.kind)).or_insert((0, 0));
        if ok { k.0 += 1; self.ok += 1 } else { k.1 += 1 }
        ok
    }
    fn nm2(&self, k: &Pubkey) -> String {
        self.names.get(&k.to_bytes()).cloned().unwrap_or_else(|| "?".into())
    }

    // ---- requests in order
    fn has(&self, n: &str) -> bool {
        self.w.accs[self.w.idx(n)].owner == anchor_spl::dex::ID
    }
    fn orders(&self, n: &str) -> Vec<(u8, u128, bool, u64)> {
        if !self.has(n) { return vec![] }
        abi::oo(self.w.accs[self.w.idx(n)].data.bytes()).slots
    }
    fn good(&self, cfg: &[&'static str], kind: &'static str, m: &str, u: &str, args: Args) -> Call {
        let pda = cfg.contains(&"pda");
        let oo = if pda { format!("oo:{}:{}", m, u) } else { format!("po:M3:{}", u) };
        let m = if pda { m } else { "M3" };
        let n = |s: &str| format!("{}.{}", m, s);
        let a = |n: &str| (n.to_string(), false, false);
        let wr = |n: &str| (n.to_string(), false, true);
        let sg = |n: &str| (n.to_string(), true, false);
        let oos = |v: &mut Vec<(String, bool, bool)>| {
            let mut l: Vec<(Pubkey, String)> = self.w.accs.iter().filter(|x| x.owner == anchor_spl::dex::ID && x.data.bytes().len() == OO_LEN).map(|x| (x.key, x.name.clone())).collect();
            l.sort_by_key(|x| x.0.to_bytes().chunks(8).map(|c| u64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]])).collect::<Vec<_>>());
            for (_, x) in l { v.push((x, false, true)) }
        };
        let mut v = vec![];
        match kind {
            "init" if pda => v = vec![a("dex"), a("sys"), wr(&oo), (u.to_string(), true, true), a(m), a("rent"), a(&n("ia"))],
            "init" => v = vec![wr(&oo), sg(u), a(m), a("rent")],
            "new" => {
                let payer = format!("{}.{}", u, if args.ask { 0 } else { 1 });
                v = vec![wr(m), wr(&oo), wr(&n("rq")), wr(&n("eq")), wr(&n("bids")), wr(&n("asks")), wr(&payer), sg(u), wr(&n("cv")), wr(&n("pv")), a("spl"), a("rent")]
            }
            "cancel" | "cancelc" => v = vec![a(m), wr(&n("bids")), wr(&n("asks")), wr(&oo), sg(u), wr(&n("eq"))],
            "settle" => v = vec![wr(m), wr(&oo), sg(u), wr(&n("cv")), wr(&n("pv")), wr(&format!("{}.0", u)), wr(&format!("{}.1", u)), a(&n("vs")), a("spl"), wr("R.1")],
            "close" => v = vec![wr(&oo), sg(u), wr(u), a(m)],
            "consume" => { oos(&mut v); v.extend(vec![wr(m), wr(&n("eq")), a("X"), a("X")]) }
            "consumep" => { oos(&mut v); v.extend(vec![wr(m), wr(&n("eq")), a(&n("ca"))]) }
            "prune" => v = vec![wr(m), wr(&n("bids")), wr(&n("asks")), a(&n("pa")), wr(&oo), a(u), wr(&n("eq"))],
            _ => v.push(a("X")),
        }
        if cfg.contains(&"extra") && ["new", "cancel", "settle"].contains(&kind) {
            v.extend(vec![wr("PV1"), wr("PV2"), a("pvs"), a("spl")]);
        }
        if cfg.contains(&"tag") { v.insert(0, a("TAG")) }
        v.insert(0, a("dex"));
        let pre = if !pda { vec![] } else if kind == "init" { vec![0, self.bumps[&oo], self.bumps[&n("ia")]] } else { vec![1] };
        Call { cfg: cfg.to_vec(), direct: false, pre, kind, args, raw: None, ac: v }
    }

    // ---- random histories
    pub fn gen(&mut self, profile: &str, lines: u64) {
        let cfgs: Vec<Vec<&'static str>> = vec![
            vec!["pda"], vec!["log", "ref", "pda"], vec!["tag", "ref", "pda", "auth"], vec!["tag", "extra", "auth", "ref", "pda"], vec![], vec!["log", "extra"],
            vec!["pda", "auth"], vec!["ref", "tag", "pda", "auth"], vec!["ref"], vec!["extra", "pda", "auth", "log"], vec!["tag", "ref", "pda", "extra", "auth"], vec!["log", "pda", "ref", "extra"],
        ];
        let mut next = 0;
        while self.lines < lines {
            if self.lines >= next {
                let lots = (*self.r.pick(&[1, 7, 100, 1000]), *self.r.pick(&[1, 10]));
                self.world(lots);
                next = self.lines + 400;
            }
            if self.r.chance(1, 40) {
                self.chance_event();
                continue;
            }
            let cfg = if self.r.chance(2, 3) { cfgs[[2, 3, 6, 9, 10][self.r.below(5) as usize]].clone() } else { self.r.pick(&cfgs).clone() };
            let u = *self.r.pick(&USERS);
            let m = if self.r.chance(1, 12) { "M3" } else { *self.r.pick(&MKTS[..2]) };
            let oo = if cfg.contains(&"pda") { format!("oo:{}:{}", m, u) } else { format!("po:M3:{}", u) };
            let mut args = Args { limit: *self.r.pick(&[0, 1, 3, 9, 100, 65535]), ts: i64::MAX, ..Args::default() };
            let ord = self.orders(&oo);
            let kind = if !self.has(&oo) && self.r.chance(5, 6) { "init" } else {
                *self.r.pick(&["new", "new", "new", "new", "cancel", "cancelc", "settle", "settle", "close", "consume", "consumep", "consumep", "prune", "init", "junk", "other"])
            };
            match kind {
                "new" => {
                    args.ask = self.r.chance(1, 2);
                    args.price = 10 + self.r.below(6);
                    args.qty = 1 + self.r.below(20);
                    args.pc = if self.r.chance(1, 3) { 1 + self.r.below(5000) } else { 1_000_000 };
                    args.ty = self.r.below(3) as u32;
                    args.stb = self.r.below(3) as u32;
                    args.cid = self.r.below(16);
                    args.limit = args.limit.max(1);
                    if self.r.chance(1, 4) { args.short = true }
                    if self.r.chance(1, 20) { args.ts = *self.r.pick(&[self.w.clock, self.w.clock - 1, 0, -1]) }
                    if self.r.chance(1, 12) { args.qty = *self.r.pick(&[u64::MAX, u64::MAX / 7, u64::MAX / 100, 1 << 61]) }
                    if self.r.chance(1, 12) { args.pc = *self.r.pick(&[u64::MAX, 1, 1_000_000_001]) }
                }
                "cancel" | "cancelc" => {
                    if let Some(o) = if ord.is_empty() { None } else { Some(*self.r.pick(&ord)) } {
                        args.ask = !o.2;
                        args.id = o.1;
                        args.cid = o.3;
                    } else {
                        args.id = self.r.next() as u128;
                        args.cid = self.r.below(16);
                    }
                }
                _ => {}
            }
            if kind == "init" && !self.has(&oo) && cfg.contains(&"pda") && self.r.chance(1, 4) {
                // somebody already paid the rent
                let amt = *self.r.pick(&[rent(OO_LEN), 90_000_000, rent(OO_LEN) - 1]);
                let i = self.w.idx(&oo);
                self.w.accs[i].lamports += amt;
                self.outside();
            }
            let mut c = self.good(&cfg, kind, m, u, args);
            if kind == "junk" || kind == "other" { self.odd(&mut c) }
            let p = if profile == "adv" { (3, 4) } else { (1, 4) };
            if self.r.chance(p.0, p.1) { self.spoil(&mut c) }
            if profile == "adv" && self.r.chance(1, 8) { c.direct = true; c.pre.clear(); if !c.ac.is_empty() { c.ac.remove(0); } if c.cfg.contains(&"tag") && !c.ac.is_empty() { c.ac.remove(0); } if c.raw.is_some() { continue } }
            self.call(&c);
        }
    }
    /// something happens outside the proxy
    fn chance_event(&mut self) {
        match self.r.below(3) {
            0 => { // lamports sent to an address not yet in use
                let u = *self.r.pick(&USERS);
                let n = format!("oo:{}:{}{}", self.r.pick(&MKTS), u, if self.r.chance(1, 4) { "~" } else { "" });
                let amt = *self.r.pick(&[1, rent(OO_LEN) - 1, rent(OO_LEN), 90_000_000]);
                let i = self.w.idx(&n);
                self.w.accs[i].lamports += amt;
            }
            1 => { // a user delegates by himself
                let n = format!("{}.{}", self.r.pick(&USERS), self.r.below(2));
                let x = self.w.key("X");
                let i = self.w.idx(&n);
                let mut t = Tok::unpack(self.w.accs[i].data.bytes()).unwrap();
                t.delegate = COption::Some(x);
                t.delegated_amount = 77;
                Tok::pack(t, self.w.accs[i].data.bytes_mut()).unwrap();
            }
            _ => { let u = *self.r.pick(&USERS); let i = self.w.idx(u); self.w.accs[i].lamports = *self.r.pick(&[rent(OO_LEN) - 1, rent(OO_LEN), 9_000_000_000, 9_000_000_000, 9_000_000_000, 9_000_000_000]); }
        }
        self.outside();
    }
    fn outside(&mut self) {
        let st = self.state();
        self.line(&format!("{{\"op\":\"outside\",\"w\":{{{}}}}}", st));
    }
    /// instruction data that is not one of the forwarded kinds
    fn odd(&mut self, c: &mut Call) {
        let mut d = vec![0u8];
        if c.kind == "other" {
            let (t, n) = *self.r.pick(&[(2u32, 2usize), (7, 0), (8, 0), (18, 16), (6, 8), (18, 0)]);
            d.extend(&t.to_le_bytes());
            d.extend(vec![1u8; n]);
            let m = "M1";
            c.ac.truncate(if c.cfg.contains(&"tag") { 2 } else { 1 });
            for n in &[m, "M1.pv", "U1", "R.1", "M1.vs", "spl"] { c.ac.push((n.to_string(), *n == "U1", *n != "spl")) }
        } else {
            match self.r.below(5) {
                0 => { d[0] = 1; d.extend(&5u32.to_le_bytes()) }
                1 => d.extend(&99u32.to_le_bytes()),
                2 => { d.extend(&5u32.to_le_bytes()); d.push(0) }
                3 => d.truncate(self.r.below(2) as usize),
                _ => { d.extend(&10u32.to_le_bytes()); d.extend(vec![0; 54]) }
            }
        }
        c.raw = Some(d);
    }
    /// one thing out of order
    fn spoil(&mut self, c: &mut Call) {
        if self.r.chance(1, 4) { self.spoil_one(c) }
        self.spoil_one(c)
    }
    fn spoil_one(&mut self, c: &mut Call) {
        let k = if c.kind == "settle" && self.r.chance(1, 3) { 15 } else if c.kind == "init" && self.r.chance(1, 4) { 0 } else if c.cfg.contains(&"tag") && self.r.chance(1, 5) { 14 } else { self.r.below(17) };
        let n = c.ac.len();
        match k {
            0 | 1 => for a in c.ac.iter_mut() { a.1 = false },
            2 => if n > 0 { let i = self.r.below(n as u64) as usize; c.ac.remove(i); },
            3 => { let keep = self.r.below(n as u64 + 1) as usize; c.ac.truncate(keep) }
            4 => { let x = self.any(); c.ac.push(x) }
            5 => if n > 0 { c.ac[0].0 = self.r.pick(&["dex2", "spl", "prog"]).to_string() },
            6 => if !c.pre.is_empty() {
                match self.r.below(5) {
                    0 => c.pre[0] ^= 1,
                    1 => { let i = c.pre.len() - 1; c.pre[i] = c.pre[i].wrapping_sub(1) }
                    2 => { c.pre = vec![*self.r.pick(&[2, 200, 255])] }
                    3 => if c.pre.len() == 3 { let v = self.r.below(2) as usize + 1; c.pre[v] = self.r.below(256) as u8 }
                    _ => { c.pre.clear(); if self.r.chance(1, 2) { c.raw = Some(vec![]); c.kind = "junk" } }
                }
            },
            // somebody else's or another market's account of the same role
            7 | 8 | 9 | 10 => {
                let mut cand: Vec<usize> = (0..n).filter(|i| { let a = &c.ac[*i].0; a.starts_with("oo:") || a.starts_with("po:") || a.starts_with('U') || a.starts_with('M') || a.starts_with("R.") }).collect();
                if k < 9 { let f: Vec<usize> = cand.iter().copied().filter(|i| c.ac[*i].0.starts_with("oo:")).collect(); if !f.is_empty() { cand = f } }
                if cand.is_empty() { return }
                let i = *self.r.pick(&cand);
                let old = c.ac[i].0.clone();
                let new = if old.starts_with("oo:") || old.starts_with("po:") {
                    let (m, u) = (*self.r.pick(&MKTS), *self.r.pick(&USERS));
                    match self.r.below(6) { 0 => format!("po:M3:{}", u), 1 => format!("oo:{}:{}~", m, u), _ => format!("oo:{}:{}", m, u) }
                } else if old.starts_with('U') && old.len() == 4 { format!("{}{}", self.r.pick(&["U1", "U2", "U3", "X", "R"]), &old[2..]) }
                else if old.starts_with('U') { self.r.pick(&["U1", "U2", "U3", "X", "POOR"]).to_string() }
                else if old.starts_with('R') { self.r.pick(&["X.1", "U1.1", "U2.1", "R.0", "X", "M1"]).to_string() }
                else if old.ends_with(".ia") && self.r.chance(1, 2) { if c.pre.len() == 3 && self.r.chance(1, 2) { c.pre[2] = self.bumps[&format!("{}~", old)] } format!("{}~", old) }
                else { format!("{}{}", self.r.pick(&MKTS), &old[2..]) };
                let all = self.r.chance(1, 3);
                for (j, a) in c.ac.iter_mut().enumerate() { if j == i || (all && a.0 == old) { a.0 = new.clone() } }
                if new.ends_with('~') && c.pre.len() == 3 && new.starts_with("oo") && self.r.chance(2, 3) { c.pre[1] = self.bumps[&new] }
            }
            14 => if n > 1 && c.ac[1].0 == "TAG" { if self.r.chance(1, 2) { c.ac[1].0 = "X".into() } else { c.ac.remove(1); } },
            15 | 16 => if c.kind == "settle" {
                if let Some(i) = c.ac.iter().position(|a| a.0 == "R.1") {
                    match self.r.below(3) {
                        0 => { c.ac.remove(i); }
                        1 => { c.ac[i].0 = "X.1".into(); c.ac.insert(i + 1, ("R.1".into(), false, true)) }
                        _ => c.ac[i].0 = "X.1".into(),
                    }
                }
            } else { for a in c.ac.iter_mut() { a.1 = false } },
            11 => if n > 0 { let i = self.r.below(n as u64) as usize; c.ac[i].2 = !c.ac[i].2 },
            12 => if n > 1 { let i = self.r.below(n as u64) as usize; let j = self.r.below(n as u64) as usize; c.ac.swap(i, j) },
            _ => if n > 0 { let i = self.r.below(n as u64) as usize; let x = self.any(); c.ac[i] = x },
        }
    }
    fn any(&mut self) -> (String, bool, bool) {
        let n = self.w.accs.len();
        let name = self.w.accs[self.r.below(n as u64) as usize].name.clone();
        let s = self.r.chance(1, 2) && (name.starts_with('U') && name.len() == 2 || name == "X" || name == "POOR");
        (name, s, self.r.chance(1, 2))
    }
    // ---- histories of the bounded model
    pub fn replay(&mut self, text: &str) {
        let lots = [(1, 1), (100, 10), (7, 1)];
        for (k, l) in text.lines().enumerate() {
            let mut it = l.split(" | ");
            let cfg: Vec<&'static str> = if it.next() == Some("0") { vec!["pda"] } else { vec!["tag", "ref", "pda", "auth"] };
            if k % 20 == 0 {
                self.world(lots[k / 20 % 3]);
            } else {
                self.world_again();
            }
            for t in it {
                let f: Vec<&str> = t.split(' ').collect();
                let kind: &'static str = ["init", "new", "cancel", "cancelc", "settle", "close", "consumep", "prune"].iter().find(|x| **x == f[0]).unwrap();
                self.variant(&cfg, kind, f[1], f[2], f[3]);
            }
        }
    }
    fn world_again(&mut self) {
        self.w.accs = self.base.clone();
        self.last.clear();
        let st = self.state();
        let l = format!("{}\"w\":{{{}}}}}", self.head, st);
        self.line(&l);
    }
    fn variant(&mut self, cfg: &[&'static str], kind: &'static str, m: &str, u: &str, v: &str) {
        let v2 = if u == "U1" { "U2" } else { "U1" };
        let m2 = if m == "M1" { "M2" } else { "M1" };
        let who = if v == "thief" { v2 } else { u };
        let args = Args { ask: true, price: 1000, qty: 1, pc: 1, limit: 5, ts: i64::MAX, cid: 4, ..Args::default() };
        let mut c = self.good(cfg, kind, m, who, args);
        if kind == "consumep" { c.ac.retain(|a| !a.0.starts_with("po:")) }
        let oo = match v { "other" => format!("oo:{}:{}", m, v2), "cross" => format!("oo:{}:{}", m2, u), "twin" => format!("oo:{}:{}~", m, u), _ => format!("oo:{}:{}", m, u) };
        let was = format!("oo:{}:{}", m, who);
        if kind != "consumep" { for a in c.ac.iter_mut() { if a.0 == was { a.0 = oo.clone() } } }
        if c.pre.len() == 3 { c.pre[1] = self.bumps[&oo] }
        if let Some(o) = self.orders(&oo).first() { c.args.id = o.1; c.args.cid = o.3; c.args.ask = !o.2 || kind == "new" }
        let t = if cfg.contains(&"tag") { 2 } else { 1 };
        match v {
            "unsigned" => for a in c.ac.iter_mut() { a.1 = false },
            "nodex" => c.ac[0].0 = "dex2".into(),
            "more" => c.ac.push(("X".into(), false, false)),
            "tag" => if t == 2 { c.ac[1].0 = "X".into() },
            "refx" => c.ac[t + 9].0 = "X.1".into(),
            "refx+" => { c.ac[t + 9].0 = "X.1".into(); c.ac.push(("R.1".into(), false, true)) }
            "ref-" => { c.ac.truncate(t + 9) }
            "payer" => c.ac[t + 6].0 = format!("{}.0", v2),
            "ia" => { c.ac[t + 6].0 = format!("{}.ia~", m); c.pre[2] = self.bumps[&c.ac[t + 6].0] }
            _ => {}
        }
        self.call(&c);
    }
}
fn dex_entry(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    serum_dex_permissioned::serum_dex::state::State::process(p, a, d).map_err(|e| { if std::env::var("DBG").is_ok() { eprintln!("{:?}", e) } e.into() })
}
