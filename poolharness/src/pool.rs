use crate::world::{Data, Outcome, Ref, Rng, World, OTHER};
use serum_pool::{Pool, PoolContext};
use serum_pool_schema::{ParamDesc, PoolState};
use solana_program::{
    account_info::AccountInfo, program_error::ProgramError, program_option::COption, program_pack::Pack, pubkey::Pubkey, rent::Rent, system_program,
};
use spl_token::state::{Account as Tok, AccountState, Mint};
use std::collections::BTreeMap;
use std::convert::TryInto;
use std::io::Write;
use std::str::FromStr;

const FEE_OWNER: &str = "3LTvJCPiPSMjX1kBJ6ZfEhn4G2hM46aJ1yEZsk8i12TK";
const TAG_REQ: u64 = 0x220a6cbdcd1cc4cf;
const TAG_STATE: u64 = 0x16a7874c7fb2301b;
const TAG_ADMIN: u64 = 0x31e6452361a17878;
const TAG_CUSTOM: u64 = 0x4a3ab7f76f93f94e;

enum Plain {}
impl Pool for Plain {}
/// a pool that needs further accounts with every request
enum Param {}
impl Pool for Param {
    fn initialize_pool(c: &PoolContext, s: &mut PoolState) -> Result<(), ProgramError> {
        s.account_params = c.custom_accounts.iter().map(|a| ParamDesc { address: a.key.into(), writable: false }).collect();
        Ok(())
    }
}

fn plain(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> Result<(), String> {
    serum_pool::pool_entrypoint::<Plain>(p, a, d).map_err(|e| format!("{:?}", e))
}
fn param(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> Result<(), String> {
    serum_pool::pool_entrypoint::<Param>(p, a, d).map_err(|e| format!("{:?}", e))
}
/// the admin-controlled pool is only reachable through its program entrypoint: serialise as the loader does
fn admin(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> Result<(), String> {
    let mut b: Vec<u8> = vec![];
    let mut at: Vec<Option<(usize, usize)>> = vec![]; // lamports offset, data offset
    b.extend(&(a.len() as u64).to_le_bytes());
    for (i, x) in a.iter().enumerate() {
        if let Some(j) = a[..i].iter().position(|y| y.key == x.key) {
            b.push(j as u8);
            b.extend(&[0; 7]);
            at.push(None);
            continue;
        }
        b.extend(&[0xff, x.is_signer as u8, x.is_writable as u8, 0, 0, 0, 0, 0]);
        b.extend(x.key.as_ref());
        b.extend(x.owner.as_ref());
        let lam = b.len();
        b.extend(&x.lamports().to_le_bytes());
        b.extend(&(x.data_len() as u64).to_le_bytes());
        at.push(Some((lam, b.len())));
        b.extend(&**x.data.borrow());
        b.extend(vec![0; 10240]);
        while b.len() % 8 != 0 { b.push(0) }
        b.extend(&0u64.to_le_bytes());
    }
    b.extend(&(d.len() as u64).to_le_bytes());
    b.extend(d);
    b.extend(p.as_ref());
    let mut buf = vec![0u64; b.len() / 8 + 1];
    let raw: &mut [u8] = bytemuck::cast_slice_mut(&mut buf);
    raw[..b.len()].copy_from_slice(&b);
    let rc = unsafe { serum_pool_examples_admin_controlled::entrypoint(raw.as_mut_ptr()) };
    if rc != 0 { return Err(format!("error {}", rc)) }
    for (x, o) in a.iter().zip(at) {
        if let Some((lam, dat)) = o {
            **x.lamports.borrow_mut() = u64::from_le_bytes(raw[lam..lam + 8].try_into().unwrap());
            let n = x.data_len();
            x.data.borrow_mut().copy_from_slice(&raw[dat..dat + n]);
        }
    }
    Ok(())
}

fn rent(n: usize) -> u64 {
    Rent::default().minimum_balance(n)
}

pub struct Pools {
    pub out: Box<dyn Write>,
    pub lines: u64,
    pub ok: u64,
    pub kinds: BTreeMap<String, (u64, u64)>,
    r: Rng,
    w: World,
    seed: u64,
    kind: &'static str,
    names: BTreeMap<[u8; 32], String>,
    nonce: u8,
    k: usize,
    last: Vec<(Vec<u8>, Pubkey, u64)>,
}

/// one request
#[derive(Clone)]
struct R {
    op: &'static str,
    act: &'static str,
    n: u64,
    ac: Vec<String>,
    sg: Vec<String>,
    // initialisation
    k: usize,
    nonce: u8,
    rate: u32,
    name: String,
}

impl Pools {
    pub fn new(seed: u64, out: Box<dyn Write>) -> Self {
        Pools {
            out, lines: 0, ok: 0, kinds: BTreeMap::new(), r: Rng(seed ^ 0x9001), w: World::new(), seed: seed.wrapping_mul(1000), kind: "plain",
            names: BTreeMap::new(), nonce: 0, k: 0, last: vec![],
        }
    }
    // ---- accounts
    fn key(&mut self) -> Pubkey {
        self.w.fresh_key(self.seed)
    }
    fn add(&mut self, n: &str, k: Pubkey, o: Pubkey, lam: u64, d: Data) {
        self.w.add(n, k, o, lam, d);
    }
    fn wallet(&mut self, n: &str) {
        let k = self.key();
        self.add(n, k, system_program::ID, 1, Data::new(0));
    }
    fn mint(&mut self, n: &str, auth: &str) {
        let a = self.w.key(auth);
        let m = Mint { mint_authority: COption::Some(a), supply: 0, decimals: 0, is_initialized: true, freeze_authority: COption::None };
        let mut d = Data::new(82);
        Mint::pack(m, d.bytes_mut()).unwrap();
        let k = self.key();
        self.add(n, k, spl_token::ID, rent(82), d);
    }
    /// a token account holding n; the mint's supply grows with it
    fn tok(&mut self, name: &str, mint: &str, own: &str, n: u64) {
        let t = Tok { mint: self.w.key(mint), owner: self.w.key(own), amount: n, state: AccountState::Initialized, ..Tok::default() };
        let mut d = Data::new(165);
        Tok::pack(t, d.bytes_mut()).unwrap();
        let k = self.key();
        self.add(name, k, spl_token::ID, rent(165), d);
        self.supply(mint, n as i128);
    }
    fn supply(&mut self, mint: &str, by: i128) {
        let i = self.w.idx(mint);
        let mut m = Mint::unpack(self.w.accs[i].data.bytes()).unwrap();
        m.supply = (m.supply as i128 + by) as u64;
        Mint::pack(m, self.w.accs[i].data.bytes_mut()).unwrap();
    }
    fn edit(&mut self, name: &str, f: impl FnOnce(&mut Tok)) {
        let i = self.w.idx(name);
        let mut t = Tok::unpack_unchecked(self.w.accs[i].data.bytes()).unwrap();
        f(&mut t);
        Tok::pack(t, self.w.accs[i].data.bytes_mut()).unwrap();
    }
    fn get(&self, name: &str) -> Tok {
        Tok::unpack_unchecked(self.w.accs[self.w.idx(name)].data.bytes()).unwrap()
    }
    fn sup(&self) -> u64 {
        Mint::unpack_unchecked(self.w.accs[self.w.idx("PM")].data.bytes()).unwrap().supply
    }
    fn size(&self, k: usize, params: usize, nlen: usize) -> usize {
        let adm = self.kind == "admin";
        8 + 32 + 4 + 64 * k + 32 + 1 + 4 + 33 * params + 4 + nlen + 32 + 32 + 4 + if adm { 33 } else { 1 } + 4 + if adm { 9 } else { 0 }
    }
    fn setup(&mut self, kind: &'static str, k: usize, vault: &[u64], holders: &[u64], wealth: u64, plen: usize) {
        self.kind = kind;
        self.k = k;
        self.w = World::new();
        self.last.clear();
        self.seed += 1;
        let prog = self.key();
        self.add("prog", prog, solana_program::bpf_loader::ID, 1, Data::new(0));
        self.wallet("evil");
        self.add("spl", spl_token::ID, solana_program::bpf_loader::ID, 1, Data::new(0));
        let mut rd = Data::new(17);
        let r = Rent::default();
        rd.bytes_mut()[..8].copy_from_slice(&r.lamports_per_byte_year.to_le_bytes());
        rd.bytes_mut()[8..16].copy_from_slice(&r.exemption_threshold.to_le_bytes());
        rd.bytes_mut()[16] = r.burn_percent;
        self.add("rent", solana_program::sysvar::rent::ID, solana_program::sysvar::ID, 1, rd);
        self.add("FEEOWNER", Pubkey::from_str(FEE_OWNER).unwrap(), system_program::ID, 1, Data::new(0));
        for n in ["U1", "U2", "U3", "ADM", "ADM2", "DLG", "X", "Y1", "Y2", "sys"].iter() { self.wallet(n) }
        self.wallet("ret");
        let rk = self.w.key("ret");
        let k0 = self.key();
        self.add("buf", k0, rk, 1, Data::new(64));
        let k0 = self.key();
        let ev = self.w.key("evil");
        self.add("ebuf", k0, ev, 1, Data::new(64));
        OTHER.with(|o| *o.borrow_mut() = Some((rk, vec![])));
        let pk = self.key();
        self.add("P", pk, prog, rent(plen), Data::new(plen));
        let p2 = self.key();
        self.add("P2", p2, prog, rent(1200), Data::new(1200));
        let (vs, nonce) = Pubkey::find_program_address(&[pk.as_ref()], &prog);
        self.nonce = nonce;
        self.add("vs", vs, system_program::ID, 0, Data::new(0));
        self.mint("PM", "vs");
        self.mint("PQ", "vs");
        for i in 1..=4 { self.mint(&format!("A{}", i), "X") }
        for i in 1..=4 {
            let v = vault.get(i - 1).cloned().unwrap_or(0);
            self.tok(&format!("V{}", i), &format!("A{}", i), "vs", v);
        }
        self.tok("V1b", "A1", "vs", 0);
        self.tok("V5", "A4", "U1", 5);
        self.tok("L", "PM", "FEEOWNER", 0);
        self.tok("L2", "PM", "FEEOWNER", 0);
        self.tok("I", "PM", "X", 0);
        self.tok("I2", "PM", "U3", 0);
        self.tok("Z", "PQ", "U1", 100);
        for (j, h) in holders.iter().enumerate() {
            self.tok(&format!("U{}.p", j + 1), "PM", &format!("U{}", j + 1), *h);
        }
        for j in 1..=3 {
            for i in 1..=4 {
                self.tok(&format!("U{}.{}", j, i), &format!("A{}", i), &format!("U{}", j), wealth);
            }
        }
        // the initializer's and the protocol's party trade as well
        for u in ["X", "FEEOWNER"].iter() {
            for i in 1..=4 { self.tok(&format!("{}.{}", u, i), &format!("A{}", i), u, wealth) }
        }
        self.names = self.w.accs.iter().map(|a| (a.key.to_bytes(), a.name.clone())).collect();
    }
    // ---- observation
    fn nm(&self, k: &[u8]) -> String {
        self.names.get(k).cloned().unwrap_or("?".into())
    }
    fn oname(&self, k: &COption<Pubkey>) -> String {
        match k { COption::Some(k) => self.nm(k.as_ref()), COption::None => "".into() }
    }
    fn pool_json(&self, d: &[u8]) -> Option<String> {
        let mut p = 0usize;
        let mut take = |n: usize| -> Option<&[u8]> { let r = d.get(p..p.checked_add(n)?)?; p += n; Some(r) };
        let u32of = |b: &[u8]| u32::from_le_bytes(b.try_into().unwrap()) as usize;
        if take(8)? != TAG_STATE.to_le_bytes() { return None }
        let mint = self.nm(take(32)?);
        let n = u32of(take(4)?);
        let mut assets = vec![];
        for _ in 0..n {
            let m = self.nm(take(32)?);
            let v = self.nm(take(32)?);
            assets.push(format!("[\"{}\",\"{}\"]", m, v));
        }
        let vs = self.nm(take(32)?);
        let nonce = take(1)?[0];
        let n = u32of(take(4)?);
        let mut params = vec![];
        for _ in 0..n { params.push(format!("\"{}\"", self.nm(take(32)?))); take(1)?; }
        let n = u32of(take(4)?);
        let name = String::from_utf8(take(n)?.to_vec()).ok()?;
        let nlen = n;
        let lqd = self.nm(take(32)?);
        let ini = self.nm(take(32)?);
        let rate = u32of(take(4)?);
        let adm = if take(1)?[0] == 1 { self.nm(take(32)?) } else { "".into() };
        let n = u32of(take(4)?);
        let cust = take(n)?;
        let paused = if self.kind == "admin" {
            if n != 9 || cust[..8] != TAG_CUSTOM.to_le_bytes() { return None }
            cust[8] != 0
        } else {
            if n != 0 { return None }
            false
        };
        Some(format!(
            "{{\"k\":\"pool\",\"mint\":\"{}\",\"assets\":[{}],\"vs\":\"{}\",\"nonce\":{},\"params\":[{}],\"name\":\"{}\",\"nlen\":{},\"lqd\":\"{}\",\"ini\":\"{}\",\"rate\":\"{}\",\"admin\":\"{}\",\"paused\":{}}}",
            mint, assets.join(","), vs, nonce, params.join(","), name, nlen, lqd, ini, rate, adm, paused
        ))
    }
    /// the whole world after a setup, then what changed
    fn world(&mut self) -> String {
        let all = self.last.is_empty();
        let mut v = vec![];
        for i in 0..self.w.accs.len() {
            let a = &self.w.accs[i];
            if !all && self.last[i].0 == a.data.bytes() && self.last[i].1 == a.owner && self.last[i].2 == a.lamports { continue }
            v.push(format!("\"{}\":{}", a.name, self.content(i)));
            let now = (a.data.bytes().to_vec(), a.owner, a.lamports);
            if all { self.last.push(now) } else { self.last[i] = now }
        }
        format!("\"{}\":{{{}}}", if all { "w" } else { "d" }, v.join(","))
    }
    fn content(&self, i: usize) -> String {
        let prog = self.w.key("prog");
        let a = &self.w.accs[i];
        let d = a.data.bytes();
        let c = if a.owner == prog {
            if d.iter().all(|b| *b == 0) { "{\"k\":\"blank\"}".into() } else { self.pool_json(d).unwrap_or("{\"k\":\"junk\"}".into()) }
        } else if d.len() == 165 && d[108] != 0 {
            let t = Tok::unpack_unchecked(d).unwrap();
            format!(
                "{{\"k\":\"token\",\"st\":{},\"mint\":\"{}\",\"own\":\"{}\",\"del\":\"{}\",\"damt\":\"{}\",\"amt\":\"{}\",\"close\":\"{}\"}}",
                d[108], self.nm(t.mint.as_ref()), self.nm(t.owner.as_ref()), self.oname(&t.delegate), t.delegated_amount, t.amount, self.oname(&t.close_authority)
            )
        } else if d.len() == 82 && d[45] == 1 {
            let m = Mint::unpack_unchecked(d).unwrap();
            format!("{{\"k\":\"mint\",\"auth\":\"{}\",\"sup\":\"{}\"}}", self.oname(&m.mint_authority), m.supply)
        } else {
            "{\"k\":\"raw\"}".into()
        };
        let o = if a.owner == spl_token::ID { "spl".into() } else { self.nm(a.owner.as_ref()) };
        format!("{{\"o\":\"{}\",\"len\":{},\"rent\":{},\"c\":{}}}", o, d.len(), a.lamports >= rent(d.len()), c)
    }
    fn emit_world(&mut self) {
        self.lines += 1;
        let s = self.world();
        writeln!(self.out, "{{\"op\":\"world\",{}}}", s).unwrap();
    }
    // ---- requests
    fn call(&mut self, ac: &[String], sg: &[String], data: &[u8]) -> bool {
        let refs: Vec<Ref> = ac.iter().map(|n| Ref { acc: self.w.idx(n), signer: sg.contains(n), writable: true }).collect();
        let prog = self.w.key("prog");
        OTHER.with(|o| o.borrow_mut().as_mut().unwrap().1.clear());
        let f: &dyn Fn(&Pubkey, &[AccountInfo], &[u8]) -> Result<(), String> = match self.kind { "plain" => &plain, "param" => &param, _ => &admin };
        self.w.run(&prog, &refs, data, f) == Outcome::Ok
    }
    fn encode(&self, r: &R) -> Vec<u8> {
        let mut b = vec![];
        if r.op == "admin" {
            b.extend(&TAG_ADMIN.to_le_bytes());
            let v = ["pause", "unpause", "approve", "add", "remove", "fee", "admin"].iter().position(|x| *x == r.act).unwrap();
            b.push(v as u8);
            if r.act == "approve" { b.extend(&r.n.to_le_bytes()) }
            if r.act == "fee" { b.extend(&(r.n as u32).to_le_bytes()) }
            return b;
        }
        b.extend(&TAG_REQ.to_le_bytes());
        match r.op {
            "init" => {
                b.push(0);
                b.push(r.nonce);
                b.push(r.k as u8);
                b.extend(&(r.name.len() as u32).to_le_bytes());
                b.extend(r.name.as_bytes());
                b.extend(&r.rate.to_le_bytes());
                b.extend(&0u32.to_le_bytes());
            }
            _ => {
                b.push(if r.op == "quote" { 1 } else { 2 });
                match r.act {
                    "create" => { b.push(0); b.extend(&r.n.to_le_bytes()) }
                    "redeem" => { b.push(1); b.extend(&r.n.to_le_bytes()) }
                    _ => { b.push(2); b.extend(&1u32.to_le_bytes()); b.extend(&r.n.to_le_bytes()) }
                }
            }
        }
        b
    }
    fn go(&mut self, r: &R) -> bool {
        let data = self.encode(r);
        let acs: Vec<String> = r.ac.iter().map(|s| format!("\"{}\"", s)).collect();
        let mut sg: Vec<String> = r.sg.iter().filter(|n| r.ac.contains(n)).cloned().collect();
        sg.sort();
        sg.dedup();
        let sgs: Vec<String> = sg.iter().map(|s| format!("\"{}\"", s)).collect();
        let vs = match r.ac.get(0).map(|p| Pubkey::create_program_address(&[self.w.key(p).as_ref(), &[r.nonce]], &self.w.key("prog"))) {
            Some(Ok(k)) => self.nm(k.as_ref()),
            _ => "".into(),
        };
        let q = format!(
            "{{\"act\":\"{}\",\"n\":\"{}\",\"ac\":[{}],\"sg\":[{}],\"kind\":\"{}\",\"k\":{},\"nonce\":{},\"vs\":\"{}\",\"rate\":\"{}\",\"name\":\"{}\",\"nlen\":{}}}",
            r.act, r.n, acs.join(","), sgs.join(","), self.kind, r.k, r.nonce, vs, r.rate, r.name, r.name.len()
        );
        crate::mark(&q);
        let ok = self.call(&r.ac, &sg, &data);
        let key = if r.act.is_empty() { r.op.to_string() } else { format!("{}.{}", r.op, r.act) };
        let e = self.kinds.entry(key).or_insert((0, 0));
        if ok { e.0 += 1; self.ok += 1 } else { e.1 += 1 }
        self.lines += 1;
        let buf = if r.op == "quote" {
            let d = OTHER.with(|o| o.borrow().as_ref().unwrap().1.clone());
            // 8 bytes offset, then the basket: u32 length, i64 each
            let mut v = vec![];
            if d.len() >= 12 { for c in d[12..].chunks(8) { v.push(format!("\"{}\"", i64::from_le_bytes(c.try_into().unwrap_or([0xff; 8])))) } }
            let good = d.len() >= 12 && d[..8] == [0; 8] && u32::from_le_bytes(d[8..12].try_into().unwrap()) as usize == v.len();
            if ok && !good { v.push("\"malformed\"".into()) }
            format!(",\"buf\":[{}]", v.join(","))
        } else { "".into() };
        let w = self.world();
        writeln!(self.out, "{{\"op\":\"{}\",\"r\":{},\"ok\":{}{},{}}}", r.op, q, ok, buf, w).unwrap();
        ok
    }
    fn req(&self, op: &'static str, act: &'static str, n: u64) -> R {
        R { op, act, n, ac: vec![], sg: vec![], k: 0, nonce: 0, rate: 0, name: "".into() }
    }
    fn init_req(&mut self, rate: u32, name: &str) -> R {
        let mut r = self.req("init", "", 0);
        r.k = self.k;
        r.nonce = self.nonce;
        r.rate = rate;
        r.name = name.into();
        r.ac = vec!["P".into(), "PM".into()];
        for i in 1..=self.k { r.ac.push(format!("V{}", i)) }
        for s in ["vs", "L", "I", "rent"].iter() { r.ac.push(s.to_string()) }
        match self.kind {
            "admin" => r.ac.push("ADM".into()),
            "param" => { r.ac.push("Y1".into()); r.ac.push("Y2".into()) }
            _ => {}
        }
        r
    }
    /// the pool's present vaults and their mints, read from the account
    fn assets(&self) -> Vec<(String, String)> {
        let d = self.w.accs[self.w.idx("P")].data.bytes();
        if d.len() < 44 || d[..8] != TAG_STATE.to_le_bytes() { return vec![] }
        let n = u32::from_le_bytes(d[40..44].try_into().unwrap()) as usize;
        (0..n.min(16)).map(|i| (self.nm(&d[44 + 64 * i..76 + 64 * i]), self.nm(&d[76 + 64 * i..108 + 64 * i]))).collect()
    }
    fn head(&self) -> Vec<String> {
        let mut v = vec!["P".to_string(), "PM".into()];
        v.extend(self.assets().into_iter().map(|a| a.1));
        v.push("vs".into());
        v
    }
    fn exec_req(&self, act: &'static str, n: u64, user: &str, ptok: &str, rf: &str) -> R {
        let mut r = self.req("exec", act, n);
        r.ac = self.head();
        r.ac.push(ptok.into());
        for (m, _) in self.assets() { r.ac.push(format!("{}.{}", user, &m[1..])) }
        r.ac.push(user.into());
        for s in ["L", "I", rf, "spl"].iter() { r.ac.push(s.to_string()) }
        if self.kind == "param" { r.ac.push("Y1".into()); r.ac.push("Y2".into()) }
        r.sg = vec![user.into()];
        r
    }
    fn quote_req(&self, act: &'static str, n: u64) -> R {
        let mut r = self.req("quote", act, n);
        r.ac = self.head();
        r.ac.push("buf".into());
        r.ac.push("ret".into());
        if self.kind == "param" { r.ac.push("Y1".into()); r.ac.push("Y2".into()) }
        r
    }
    fn admin_key(&self) -> String {
        let w = self.content(self.w.idx("P"));
        let i = w.find("\"admin\":\"").map(|i| i + 9);
        i.map(|i| w[i..].split('"').next().unwrap().to_string()).filter(|s| !s.is_empty()).unwrap_or("ADM".into())
    }
    fn admin_req(&self, act: &'static str, n: u64, rest: &[&str]) -> R {
        let mut r = self.req("admin", act, n);
        let a = self.admin_key();
        r.ac = vec!["P".into(), a.clone()];
        r.ac.extend(rest.iter().map(|s| s.to_string()));
        r.sg = vec![a];
        if act == "admin" { r.sg.extend(rest.iter().map(|s| s.to_string())) }
        r
    }
    // ---- generation
    fn amount(&mut self, user: &str, ptok: &str) -> u64 {
        let s = self.sup();
        let _ = user;
        let h = self.get(ptok).amount;
        match self.r.below(12) {
            0 => 0,
            1 => 1,
            2 => h,
            3 => h.saturating_add(1),
            4 => s,
            5 => self.r.logu(s.max(1)),
            6 => self.r.range(1, 20) * 10000 + self.r.below(3) - 1,
            7 => self.r.next(),
            8 => self.r.range(1, 40),
            9 => h / 2,
            _ => self.r.logu(h.max(1)),
        }
    }
    fn wallets() -> [&'static str; 8] {
        ["U1", "U2", "U3", "ADM", "ADM2", "DLG", "X", "FEEOWNER"]
    }
    /// alter one thing about a request
    fn mutate(&mut self, r: &mut R) {
        let all: Vec<String> = self.w.accs.iter().map(|a| a.name.clone()).collect();
        match self.r.below(8) {
            0 => { r.sg.clear() }
            1 => { let n = self.r.below(r.ac.len() as u64) as usize; r.ac.truncate(n.max(1)) }
            2 if r.ac.len() > 2 => { let (i, j) = (self.r.below(r.ac.len() as u64) as usize, self.r.below(r.ac.len() as u64) as usize); r.ac.swap(i, j) }
            _ => {
                let i = self.r.below(r.ac.len() as u64) as usize;
                let c = r.ac[i].clone();
                // often a look-alike of the same kind
                let d = self.w.accs[self.w.idx(&c)].data.bytes().len();
                let like: Vec<String> = self.w.accs.iter().filter(|a| a.data.bytes().len() == d && a.name != c).map(|a| a.name.clone()).collect();
                let mut t = if !like.is_empty() && self.r.chance(3, 4) { self.r.pick(&like).clone() } else { self.r.pick(&all).clone() };
                if d == 165 && self.r.chance(1, 3) {
                    // a token account of the same mint
                    let m = self.get(&c).mint;
                    let same: Vec<String> = like.iter().filter(|n| self.get(n).mint == m).cloned().collect();
                    if !same.is_empty() { t = self.r.pick(&same).clone() }
                }
                let was = r.sg.contains(&c);
                r.ac[i] = t.clone();
                // a wallet put in place of a signer signs or not
                if was && Self::wallets().contains(&t.as_str()) && self.r.chance(1, 2) { r.sg.push(t) }
            }
        }
    }
    /// something done to the accounts by other parties
    fn outside(&mut self) {
        let assets = self.assets();
        let u = *self.r.pick(&["U1", "U2", "U3"]);
        match self.r.below(7) {
            0 | 1 if !assets.is_empty() => {
                // a donation to a vault
                let (m, v) = self.r.pick(&assets).clone();
                let from = format!("{}.{}", u, &m[1..]);
                let have = self.get(&from).amount;
                let room = u64::MAX - self.get(&v).amount;
                let n = self.r.logu(have.max(1)).min(have).min(room);
                self.edit(&from, |t| t.amount -= n);
                self.edit(&v, |t| t.amount += n);
            }
            2 => {
                // a user lets another one spend
                let d = self.w.key(*self.r.pick(&["U1", "U2", "U3"]));
                let a = if self.r.chance(1, 2) { format!("{}.p", u) } else { format!("{}.{}", u, self.r.range(1, 3)) };
                let n = self.r.logu(self.get(&a).amount.max(1));
                self.edit(&a, |t| { t.delegate = COption::Some(d); t.delegated_amount = n });
            }
            3 => {
                let a = format!("{}.{}", u, self.r.range(1, 3));
                let f = self.r.chance(1, 2);
                self.edit(&a, |t| t.state = if f { AccountState::Frozen } else { AccountState::Initialized });
            }
            4 if !assets.is_empty() => {
                // the delegate of a vault takes what it was given, or brings it back
                let (m, v) = self.r.pick(&assets).clone();
                let t = self.get(&v);
                if t.delegate.is_some() {
                    let n = self.r.below(t.delegated_amount.min(t.amount).saturating_add(1));
                    let to = format!("U3.{}", &m[1..]);
                    if self.get(&to).amount.checked_add(n).is_some() {
                        self.edit(&v, |t| { t.amount -= n; t.delegated_amount -= n; if t.delegated_amount == 0 { t.delegate = COption::None } });
                        self.edit(&to, |t| t.amount += n);
                    }
                }
            }
            5 if self.r.chance(1, 3) => {
                // pool tokens handed on
                let v = *self.r.pick(&["U1", "U2", "U3"]);
                let (a, b) = (format!("{}.p", u), format!("{}.p", v));
                let n = self.r.below(self.get(&a).amount.saturating_add(1).max(1));
                if a != b { self.edit(&a, |t| t.amount -= n); self.edit(&b, |t| t.amount += n) }
            }
            _ => return,
        }
        self.emit_world();
    }
    fn own_ptok(u: &str) -> String {
        match u { "X" => "I".into(), "FEEOWNER" => "L".into(), _ => format!("{}.p", u) }
    }
    fn one_exec(&mut self, adv: u64) {
        let u = *self.r.pick(&["U1", "U1", "U1", "U1", "U2", "U2", "U3", "U3", "X", "FEEOWNER"]);
        let own = if u == "U3" && self.r.chance(1, 4) { "I2".to_string() } else { Self::own_ptok(u) };
        let ptok = if self.r.chance(1, 12) { (*self.r.pick(&["I", "L", "I2", "U1.p", "U2.p"])).to_string() } else { own.clone() };
        let rf = match self.r.below(6) { 0 => own, 1 => "I".into(), 2 => "L".into(), 3 => "I2".into(), _ => "U3.p".to_string() };
        let n = self.amount(u, &ptok);
        let act = *self.r.pick(&["create", "create", "redeem", "redeem", "redeem", "swap"]);
        let act = if act == "swap" && self.r.chance(3, 4) { "create" } else { act };
        let mut r = self.exec_req(act, n, u, &ptok, &rf);
        if self.r.chance(adv, 100) { self.mutate(&mut r) }
        self.go(&r);
    }
    fn one_admin(&mut self, adv: u64) {
        let assets: Vec<String> = self.assets().into_iter().map(|a| a.1).collect();
        let v = if assets.is_empty() || self.r.chance(1, 5) { (*self.r.pick(&["V1", "V2", "V3", "V4", "V1b", "V5"])).to_string() } else { self.r.pick(&assets).clone() };
        let mut r = match self.r.below(9) {
            0 => self.admin_req("pause", 0, &[]),
            1 | 2 => { let a: Vec<&str> = assets.iter().map(|s| s.as_str()).collect(); self.admin_req("unpause", 0, &a) }
            3 => { let n = if self.r.chance(1, 4) { 0 } else { self.r.logu(1 << 40) }; self.admin_req("approve", n, &[&v, "DLG", "vs", "spl"]) }
            4 => { let v = *self.r.pick(&["V1", "V2", "V3", "V4", "V1b", "V5", "U1.4"]); self.admin_req("add", 0, &[v]) }
            5 | 6 => self.admin_req("remove", 0, &[&v]),
            7 => { let n = *self.r.pick(&[0u64, 149, 150, 151, 2500, 100_000, 999_999, 1_000_000, 4_000_000_000]); self.admin_req("fee", n, &[]) }
            _ => { let a = *self.r.pick(&["ADM", "ADM2"]); self.admin_req("admin", 0, &[a]) }
        };
        if self.r.chance(adv, 100) {
            if self.r.chance(1, 2) && r.ac.len() > 1 {
                // somebody else, properly signed
                let x = (*self.r.pick(&Self::wallets())).to_string();
                r.ac[1] = x.clone();
                r.sg.push(x);
            } else {
                self.mutate(&mut r)
            }
        }
        self.go(&r);
    }
    fn raw(&mut self) {
        let mut r = self.exec_req("create", 5, "U1", "U1.p", "U2.p");
        if self.r.chance(1, 3) { r = self.init_req(2500, "x") }
        let mut b = self.encode(&r);
        match self.r.below(5) {
            0 => { b.pop(); }
            1 => b.push(0),
            2 => { let i = self.r.below(8) as usize; b[i] ^= 1 << self.r.below(8) }
            3 => b[8] = 3 + self.r.below(250) as u8,
            _ => { let n = self.r.below(9) as usize; b.truncate(n) }
        }
        if r.op == "exec" && self.r.chance(1, 4) && b.len() > 9 { b[9] = 3 + self.r.below(200) as u8 }
        let sg = r.sg.clone();
        let ok = self.call(&r.ac, &sg, &b);
        self.lines += 1;
        let e = self.kinds.entry("raw".into()).or_insert((0, 0));
        if ok { e.0 += 1 } else { e.1 += 1 }
        let w = self.world();
        writeln!(self.out, "{{\"op\":\"raw\",\"b\":{:?},\"ok\":{},{}}}", b, ok, w).unwrap();
    }
    fn init_defect(&mut self, r: &mut R) {
        let u = self.w.key("U1");
        let vs = self.w.key("vs");
        let v = format!("V{}", self.r.range(1, self.k.max(1) as u64));
        match self.r.below(20) {
            0 | 18 => { let n = *self.r.pick(&["P", "PM", "L", "I", v.as_str(), v.as_str()]); let i = self.w.idx(n); self.w.accs[i].lamports = rent(self.w.accs[i].data.bytes().len()) - 1 }
            1 => { let i = self.w.idx("PM"); let mut m = Mint::unpack(self.w.accs[i].data.bytes()).unwrap(); m.mint_authority = if self.r.chance(1, 2) { COption::Some(u) } else { COption::None }; Mint::pack(m, self.w.accs[i].data.bytes_mut()).unwrap() }
            2 => self.edit(&v, |t| t.owner = u),
            3 => { let d = if self.r.chance(1, 2) { vs } else { self.w.key("X") }; self.edit(&v, |t| { t.owner = u; t.delegate = COption::Some(d); t.delegated_amount = 5 }) }
            4 => self.edit("L", |t| t.owner = u),
            5 => { let f = self.w.key("FEEOWNER"); self.edit("L", |t| { t.owner = u; t.delegate = COption::Some(f); t.delegated_amount = 9 }) }
            6 => self.edit("L", |t| { t.delegate = COption::Some(u); t.delegated_amount = 9 }),
            7 => { let c = if self.r.chance(1, 2) { u } else { vs }; self.edit("L", |t| t.close_authority = COption::Some(c)) }
            8 => r.rate = *self.r.pick(&[0u32, 149, 150, 151, 999_999, 1_000_000, 1_000_001, u32::MAX]),
            9 => r.nonce = r.nonce.wrapping_sub(1 + self.r.below(4) as u8),
            10 => { let i = self.w.idx("P"); let l = self.w.accs[i].data.bytes().len() as u64; let at = self.r.below(l) as usize; self.w.accs[i].data.bytes_mut()[at] = 1 }
            11 => { let i = self.w.idx("P"); self.w.accs[i].owner = self.w.key("evil") }
            12 => { let n = *self.r.pick(&["PM", "L", "I", v.as_str()]); let i = self.w.idx(n); self.w.accs[i].owner = self.w.key("evil") }
            13 => { let i = self.w.idx(&v); self.w.accs[i].data.bytes_mut()[108] = 0 }
            14 => { let m = self.w.key("PQ"); let n = *self.r.pick(&["L", "I"]); self.edit(n, |t| t.mint = m) }
            15 => r.k = self.r.below(5) as usize,
            16 if self.k >= 2 => { r.ac[3] = r.ac[2].clone() }
            17 => { r.ac.pop(); }
            _ => self.mutate(r),
        }
    }
    pub fn gen(&mut self, profile: &str, n: u64) {
        let adv = match profile { "adv" => 45, "init" => 20, _ => 6 };
        while self.lines < n {
            let kind = match profile { "admin" => "admin", "init" | "adv" => *self.r.pick(&["plain", "param", "admin"]), _ => *self.r.pick(&["plain", "plain", "param", "admin"]) };
            let least = if self.r.chance(1, 20) { 0 } else { 1 };
            let k = self.r.range(least, 3) as usize;
            let top = *self.r.pick(&[50u64, 10_000, 1 << 32, 1 << 40, 1 << 62]);
            let vault: Vec<u64> = (0..k).map(|_| if self.r.chance(1, 12) { 0 } else { self.r.logu(top) }).collect();
            let zero = self.r.chance(1, 20);
            let holders: Vec<u64> = (0..3).map(|_| if zero { 0 } else { self.r.logu(top) }).collect();
            let name = (*self.r.pick(&["", "p", "a pool", "some longer pool name"])).to_string();
            let kk = kind;
            self.kind = kk;
            let fit = self.size(k, if kind == "param" { 2 } else { 0 }, name.len());
            let plen = match self.r.below(6) { 0 => fit, 1 => fit + 64, 2 if profile == "init" => fit - 1, _ => 1200 };
            let wealth = *self.r.pick(&[1u64 << 20, 1 << 50, 1 << 61]);
            self.setup(kind, k, &vault, &holders, wealth, plen);
            let rate = *self.r.pick(&[150u32, 151, 2500, 2500, 3333, 100_000, 999_999]);
            self.emit_world();
            let tries = if profile == "init" { 12 } else { self.r.below(3) };
            for _ in 0..tries {
                let saved: Vec<_> = self.w.accs.clone();
                let mut r = self.init_req(rate, &name);
                for _ in 0..self.r.range(1, 2) { self.init_defect(&mut r) }
                self.emit_world();
                self.go(&r);
                self.w.accs = saved;
                self.emit_world();
            }
            // nothing works before there is a pool
            if self.r.chance(1, 4) { self.one_exec(0) }
            let r = self.init_req(rate, &name);
            self.go(&r);
            if self.r.chance(1, 3) {
                let r = self.init_req(2500, "again");
                self.go(&r);
            }
            for _ in 0..if profile == "init" { 6 } else { 50 } {
                match self.r.below(20) {
                    0..=10 => self.one_exec(adv),
                    11 | 12 => {
                        let n = self.amount("U1", "U1.p");
                        let a = *self.r.pick(&["create", "redeem", "redeem", "create", "swap"]);
                        let mut r = self.quote_req(a, n);
                        if self.r.chance(adv, 100) { self.mutate(&mut r) }
                        self.go(&r);
                    }
                    13 | 14 => self.outside(),
                    15 if profile != "admin" => self.raw(),
                    _ if kind == "admin" || self.r.chance(1, 8) => self.one_admin(adv),
                    _ => self.one_exec(adv),
                }
                if self.lines >= n { break }
            }
        }
    }
    /// histories of PoolMC: "kind rate v1,v2 h1,h2 | op ... | op ..."
    pub fn replay(&mut self, text: &str) {
        for line in text.lines() {
            let mut parts = line.split('|').map(|s| s.trim());
            let h: Vec<&str> = parts.next().unwrap().split_whitespace().collect();
            let nums = |s: &str| -> Vec<u64> { s.split(',').map(|x| x.parse().unwrap()).collect() };
            let kind = if h[0] == "admin" { "admin" } else { "plain" };
            let v = nums(h[2]);
            self.setup(kind, v.len(), &v, &nums(h[3]), 1000, 1200);
            self.emit_world();
            let r = self.init_req(h[1].parse().unwrap(), "mc");
            self.go(&r);
            for p in parts {
                let t: Vec<&str> = p.split_whitespace().collect();
                let n = |i: usize| t.get(i).map_or(0, |x| x.parse::<u64>().unwrap());
                match t[0] {
                    "create" | "redeem" => {
                        let act = if t[0] == "create" { "create" } else { "redeem" };
                        let r = self.exec_req(act, n(1), t[2], &Self::own_ptok(t[2]), t[3]);
                        self.go(&r);
                    }
                    "donate" => {
                        let (v, m) = (format!("V{}", t[1]), n(2));
                        self.edit(&v, |x| x.amount += m);
                        self.supply(&format!("A{}", t[1]), m as i128);
                        self.emit_world();
                    }
                    "draw" => {
                        // the delegate empties what it may
                        let v = format!("V{}", t[1]);
                        let x = self.get(&v);
                        let m = x.delegated_amount.min(x.amount);
                        self.edit(&v, |x| { x.amount -= m; x.delegated_amount -= m; if x.delegated_amount == 0 { x.delegate = COption::None } });
                        self.edit(&format!("U3.{}", t[1]), |x| x.amount += m);
                        self.emit_world();
                    }
                    act => {
                        let a: Vec<String> = self.assets().into_iter().map(|a| a.1).collect();
                        let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
                        let by = t[1];
                        let vault = t.get(3).map_or("V1".to_string(), |i| format!("V{}", i));
                        let mut r = match act {
                            "pause" => self.admin_req("pause", 0, &[]),
                            "unpause" => self.admin_req("unpause", 0, &a),
                            "approve" => self.admin_req("approve", n(2), &[&vault, "DLG", "vs", "spl"]),
                            "add" => self.admin_req("add", 0, &[&vault]),
                            "remove" => self.admin_req("remove", 0, &[&vault]),
                            "fee" => self.admin_req("fee", n(2), &[]),
                            "admin" => self.admin_req("admin", 0, &["ADM2"]),
                            _ => panic!("script {}", p),
                        };
                        r.ac[1] = by.to_string();
                        r.sg.push(by.to_string());
                        self.go(&r);
                    }
                }
            }
        }
    }
}
