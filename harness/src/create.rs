//! Attempts at creating markets; every attempt becomes a line judged by CreateTrace.tla.
use crate::abi::{self, key_at, u64at};
use crate::dex::{entry, pack_mint, pack_token, rent, vault_signer};
use crate::world::{Data, Outcome, Ref, Rng, World};
use serum_dex::instruction::{self as ix, InitializeMarketInstruction, MarketInstruction};
use solana_program::{pubkey::Pubkey, system_program};
use std::collections::BTreeMap;
use std::io::Write;

pub struct Create {
    pub out: Box<dyn Write>,
    pub lines: u64,
    pub ok: u64,
    pub kinds: BTreeMap<String, (u64, u64)>,
    w: World,
    pid: Pubkey,
    pub r: Rng,
    names: BTreeMap<[u8; 32], String>,
    seed: u64,
    nonces: BTreeMap<String, [u64; 3]>, // market -> valid, other valid, invalid
}

const ROLES: [&str; 5] = ["m", "r", "e", "b", "s"];

impl Create {
    pub fn new(seed: u64, out: Box<dyn Write>) -> Self {
        Create {
            out, lines: 0, ok: 0, kinds: BTreeMap::new(), w: World::new(), pid: Pubkey::default(), r: Rng(seed ^ 0xC2EA7E),
            names: BTreeMap::new(), seed, nonces: BTreeMap::new(),
        }
    }
    fn raw(&mut self, n: &str, owner: Pubkey, lam: u64, d: Data) {
        let k = self.w.fresh_key(self.seed);
        self.w.add(n, k, owner, lam, d);
    }
    fn right(role: &str, x: &str) -> usize {
        match role {
            "m" => if x == "A" { 388 } else { 1476 },
            "r" => 12 + 32 + 80,
            "e" => 12 + 32 + 88 * 128,
            _ => 12 + 8 + 32 + 72 * 201,
        }
    }
    /// fresh world: sets A and B of blank accounts, two mints, parties
    fn reset(&mut self) {
        self.w = World::new();
        self.w.clock = 1_600_000_000;
        self.seed = self.seed.wrapping_add(1);
        self.pid = self.w.fresh_key(self.seed);
        self.nonces.clear();
        let pid = self.pid;
        let evil = self.w.fresh_key(self.seed);
        self.w.add("evil", evil, system_program::ID, 1, Data::new(0));
        self.w.add("rent", solana_program::sysvar::rent::ID, solana_program::sysvar::ID, 1, Data::new(0));
        self.w.add("spl", spl_token::ID, solana_program::bpf_loader::ID, 1, Data::new(0));
        for n in ["a1", "a2", "a3", "a4", "U"].iter() {
            self.raw(n, system_program::ID, 1, Data::new(0));
        }
        for n in ["N1", "N2"].iter() {
            self.raw(n, spl_token::ID, rent(82), pack_mint());
        }
        for x in ["A", "B"].iter() {
            for r in ROLES.iter() {
                let len = Self::right(r, x);
                self.raw(&format!("{}{}", r, x), pid, rent(len), Data::new(len));
            }
            let m = self.w.key(&format!("m{}", x));
            let (n0, vs) = vault_signer(&m, &pid);
            let other = (n0 + 1..).find(|n| Pubkey::create_program_address(&[m.as_ref(), &n.to_le_bytes()], &pid).is_ok()).unwrap();
            // no address, although its low bits are those of the right one
            let step = if *x == "A" { 1u64 << 8 } else { 1 << 32 };
            let none = (1..).map(|i| n0 + i * step).find(|n| Pubkey::create_program_address(&[m.as_ref(), &n.to_le_bytes()], &pid).is_err()).unwrap();
            self.nonces.insert(format!("m{}", x), [n0, other, none]);
            self.w.add(&format!("v{}", x), vs, system_program::ID, 0, Data::new(0));
            for (r, mint) in [("c", "N1"), ("p", "N2")].iter() {
                let d = pack_token(&self.w.key(mint), &vs, 0);
                self.raw(&format!("{}{}", r, x), spl_token::ID, rent(165), d);
            }
        }
        self.names = self.w.accs.iter().map(|a| (a.key.to_bytes(), a.name.clone())).collect();
    }
    fn resize(&mut self, i: usize, len: usize) {
        let rich = self.w.accs[i].lamports;
        let mut d = Data::new(len);
        let old = self.w.accs[i].data.bytes().to_vec();
        // accounts of the exchange never hold anything but zeroes before they are initialised: dirt stays at the edge
        let n = old.len().min(len).min(if old.len() == 165 || old.len() == 82 { 165 } else { 13 });
        d.bytes_mut()[..n].copy_from_slice(&old[..n]);
        self.w.accs[i].data = d;
        self.w.accs[i].lamports = rich.max(rent(len));
    }
    fn defect(&mut self, n: &str, kind: &str) {
        let i = self.w.idx(n);
        let mint = n.starts_with('N');
        let b = self.r.next();
        let evil = self.w.key("evil");
        let want = if mint { 82 } else { 165 };
        if ["uninit", "frozen", "holder", "del", "close", "mint"].contains(&kind) && self.w.accs[i].data.bytes().len() < want { return }
        match kind {
            "owner" | "notspl" => self.w.accs[i].owner = if b % 2 == 0 { evil } else if kind == "owner" { spl_token::ID } else { self.pid },
            "mod" => { let l = self.w.accs[i].data.bytes().len(); self.resize(i, l + 1) }
            "short" => { let l = self.w.accs[i].data.bytes().len(); self.resize(i, l - 8) }
            "long" => { let l = self.w.accs[i].data.bytes().len(); self.resize(i, l + 8) }
            "len" => {
                let l = if mint { 90 } else { 164 };
                self.resize(i, l)
            }
            "poor" => self.w.accs[i].lamports = rent(self.w.accs[i].data.bytes().len()) - 1,
            "head" | "flag" | "tail" => {
                let l = self.w.accs[i].data.bytes().len();
                let at = match kind { "head" => b % 5, "flag" => 5 + b % 8, _ => l as u64 - 7 + b % 7 } as usize;
                self.w.accs[i].data.bytes_mut()[at] = 1 << (b >> 32) % 8;
            }
            "uninit" => self.w.accs[i].data.bytes_mut()[if mint { 45 } else { 108 }] = 0,
            "frozen" => self.w.accs[i].data.bytes_mut()[108] = 2,
            "holder" => { let k = self.w.key("U").to_bytes(); self.w.accs[i].data.bytes_mut()[32..64].copy_from_slice(&k) }
            "del" => { let k = self.w.key("U").to_bytes(); let d = self.w.accs[i].data.bytes_mut(); d[72] = 1; d[76..108].copy_from_slice(&k); d[121] = 0 }
            "close" => { let k = self.w.key("U").to_bytes(); let d = self.w.accs[i].data.bytes_mut(); d[129] = 1; d[133..165].copy_from_slice(&k) }
            "mint" => {
                let m = if n.starts_with('c') { "N2" } else { "N1" };
                let k = self.w.key(m).to_bytes();
                self.w.accs[i].data.bytes_mut()[..32].copy_from_slice(&k)
            }
            _ => panic!("defect {}", kind),
        }
    }
    fn nm(&self, k: &[u8; 32]) -> String {
        if *k == [0; 32] { return "".into() }
        self.names.get(k).cloned().unwrap_or("?".into())
    }
    fn content(&self, n: &str) -> String {
        let a = &self.w.accs[self.w.idx(n)];
        let d = a.data.bytes();
        let l = d.len();
        if a.owner == self.pid {
            if l < 20 { return "{\"k\":\"raw\"}".into() }
            let edge = d[..13].iter().chain(d[l - 7..].iter());
            if edge.clone().all(|b| *b == 0) {
                return if d.iter().all(|b| *b == 0) { "{\"k\":\"blank\"}".into() } else { "{\"k\":\"stale\"}".into() };
            }
            if &d[..5] != b"serum" || &d[l - 7..] != b"padding" { return "{\"k\":\"dirty\"}".into() }
            let f = u64at(d, 5);
            let rest = &d[13..l - 7];
            let zero = rest.iter().all(|b| *b == 0);
            let b = &d[5..];
            return match f & !(512 + 1024 + 128) {
                3 if l == 388 || l == 1476 => {
                    let k = |w: usize| self.nm(&key_at(b, 8 * w));
                    let u = |w: usize| u64at(b, 8 * w);
                    let v2 = l == 1476;
                    let au = |i: usize| if v2 { self.nm(&key_at(b, 376 + 32 * i)) } else { "".into() };
                    let mut zero = [18usize, 19, 24, 25, 46].iter().all(|w| u(*w) == 0);
                    if v2 { zero = zero && b[376 + 96..b.len() - 7].iter().all(|x| *x == 0) }
                    format!(
                        "{{\"k\":\"market\",\"own\":\"{}\",\"rq\":\"{}\",\"eq\":\"{}\",\"bids\":\"{}\",\"asks\":\"{}\",\"cv\":\"{}\",\"pv\":\"{}\",\"cm\":\"{}\",\"pm\":\"{}\",\"clot\":\"{}\",\"plot\":\"{}\",\"fee\":\"{}\",\"nonce\":\"{}\",\"dust\":\"{}\",\"perm\":{},\"crank\":{},\"dis\":{},\"ooa\":\"{}\",\"pra\":\"{}\",\"cra\":\"{}\",\"zero\":{}}}",
                        k(1), k(27), k(31), k(35), k(39), k(14), k(20), k(6), k(10), u(43), u(44), u(45), u(5), u(26),
                        f & 512 != 0, f & 1024 != 0, f & 128 != 0, au(0), au(1), au(2), zero
                    )
                }
                9 => format!("{{\"k\":\"rq\",\"zero\":{}}}", zero),
                17 => format!("{{\"k\":\"eq\",\"zero\":{}}}", zero),
                33 => format!("{{\"k\":\"bids\",\"zero\":{}}}", zero),
                65 => format!("{{\"k\":\"asks\",\"zero\":{}}}", zero),
                5 => "{\"k\":\"oo\"}".into(),
                _ => format!("{{\"k\":\"flags{}\"}}", f),
            };
        }
        if a.owner == spl_token::ID || a.name.starts_with('c') || a.name.starts_with('p') || a.name.starts_with('N') {
            if l == 165 {
                return format!(
                    "{{\"k\":\"token\",\"st\":{},\"mint\":\"{}\",\"own\":\"{}\",\"del\":{},\"close\":{}}}",
                    d[108], self.nm(&key_at(d, 0)), self.nm(&key_at(d, 32)), d[72] != 0, d[129] != 0
                );
            }
            if l == 82 { return format!("{{\"k\":\"mint\",\"st\":{}}}", d[45]) }
        }
        "{\"k\":\"raw\"}".into()
    }
    fn world(&self) -> String {
        let v: Vec<String> = self.w.accs.iter().map(|a| {
            let o = if a.owner == self.pid { "dex" } else if a.owner == spl_token::ID { "spl" } else { "sys" };
            format!("\"{}\":{{\"o\":\"{}\",\"len\":{},\"rent\":{},\"c\":{}}}", a.name, o, a.data.bytes().len(), a.lamports >= rent(a.data.bytes().len()), self.content(&a.name))
        }).collect();
        format!("{{{}}}", v.join(","))
    }
    fn emit_world(&mut self) {
        self.lines += 1;
        let s = self.world();
        writeln!(self.out, "{{\"op\":\"world\",\"w\":{}}}", s).unwrap();
    }
    /// one attempt; nn: ok | alt | none
    fn create(&mut self, nn: &str, ac: &[String], clot: u64, plot: u64, fee: u16, dust: u64) -> bool {
        let pid = self.pid;
        let nonce = match self.nonces.get(&ac[0]) {
            Some(v) => v[match nn { "ok" => 0, "alt" => 1, _ => 2 }],
            None => 0,
        };
        let mk = self.w.key(&ac[0]);
        let vs = match Pubkey::create_program_address(&[mk.as_ref(), &nonce.to_le_bytes()], &pid) {
            Ok(k) => { let n = self.nm(&k.to_bytes()); if n.is_empty() { "?".into() } else { n } }
            Err(_) => String::new(),
        };
        let refs: Vec<Ref> = ac.iter().enumerate().map(|(i, n)| Ref { acc: self.w.idx(n), signer: false, writable: i < 7 }).collect();
        let data = MarketInstruction::InitializeMarket(InitializeMarketInstruction {
            coin_lot_size: clot, pc_lot_size: plot, fee_rate_bps: fee, vault_signer_nonce: nonce, pc_dust_threshold: dust,
        }).pack();
        crate::mark(&ac.join(","));
        let before: Vec<(u64, Vec<u8>, Pubkey)> = self.w.accs.iter().map(|a| (a.lamports, a.data.bytes().to_vec(), a.owner)).collect();
        let res = self.w.run(&pid, &refs, &data, &entry) == Outcome::Ok;
        // everything but the five exchange accounts named must be untouched, on refusal those as well
        let mut others = true;
        for (i, a) in self.w.accs.iter().enumerate() {
            let b = &before[i];
            let mine = res && ac.iter().take(5).any(|n| *n == a.name);
            if a.lamports != b.0 || a.owner != b.2 || (!mine && a.data.bytes() != &b.1[..]) { others = false }
        }
        self.lines += 1;
        if res { self.ok += 1 }
        let e = self.kinds.entry("create".into()).or_insert((0, 0));
        if res { e.0 += 1 } else { e.1 += 1 }
        let l: Vec<String> = ac.iter().map(|s| format!("\"{}\"", s)).collect();
        let s = format!(
            "{{\"op\":\"create\",\"a\":{{\"ac\":[{}],\"vs\":\"{}\",\"clot\":\"{}\",\"plot\":\"{}\",\"fee\":\"{}\",\"nonce\":\"{}\",\"dust\":\"{}\"}},\"ok\":{},\"others\":{},\"w\":{}}}",
            l.join(","), vs, clot, plot, fee, nonce, dust, res, others, self.world()
        );
        writeln!(self.out, "{}", s).unwrap();
        res
    }
    pub fn replay(&mut self, text: &str) {
        for line in text.lines() {
            let mut parts = line.split('|');
            self.reset();
            for d in parts.next().unwrap().split_whitespace() {
                let mut it = d.split(':');
                let (role, kind) = (it.next().unwrap(), it.next().unwrap());
                let n = if role.starts_with('N') { role.to_string() } else { format!("{}A", role) };
                self.defect(&n, kind);
            }
            self.emit_world();
            for c in parts {
                let mut it = c.split_whitespace();
                let nn = it.next().unwrap();
                let ac: Vec<String> = it.next().unwrap().split(',').map(|s| s.to_string()).collect();
                self.create(nn, &ac, 10, 7, 0, 3);
            }
        }
    }
    fn full(x: &str) -> Vec<String> {
        let mut v: Vec<String> = ["m", "r", "e", "b", "s", "c", "p"].iter().map(|r| format!("{}{}", r, x)).collect();
        v.extend(["N1", "N2", "rent"].iter().map(|s| s.to_string()));
        v
    }
    fn sys(&mut self, ins: solana_program::instruction::Instruction) -> bool {
        let refs: Vec<Ref> = ins.accounts.iter().map(|m| Ref { acc: self.w.by_key[&m.pubkey], signer: m.is_signer, writable: m.is_writable }).collect();
        let pid = self.pid;
        self.w.run(&pid, &refs, &ins.data, &entry) == Outcome::Ok
    }
    fn n64(&mut self) -> u64 {
        match self.r.below(5) { 0 => 0, 1 => u64::MAX, 2 => 1 << self.r.below(64), 3 => self.r.below(1000), _ => self.r.next() }
    }
    pub fn gen(&mut self, n: u64) {
        const DEX: [&str; 8] = ["owner", "mod", "short", "long", "poor", "head", "flag", "tail"];
        const TOK: [&str; 9] = ["notspl", "len", "uninit", "frozen", "holder", "del", "close", "mint", "poor"];
        const MINT: [&str; 4] = ["notspl", "len", "uninit", "poor"];
        while self.lines < n {
            self.reset();
            let pid = self.pid;
            // roomy accounts now and then
            for x in ["A", "B"].iter() {
                for r in ["r", "e", "b", "s"].iter() {
                    if self.r.chance(1, 3) {
                        let i = self.w.idx(&format!("{}{}", r, x));
                        let l = self.w.accs[i].data.bytes().len() + 8 * self.r.below(40) as usize;
                        self.resize(i, l);
                    }
                }
            }
            for _ in 0..self.r.below(3) {
                let x = *self.r.pick(&["A", "A", "B"]);
                match self.r.below(8) {
                    0..=4 => { let (ro, d) = (*self.r.pick(&ROLES), *self.r.pick(&DEX)); self.defect(&format!("{}{}", ro, x), d) }
                    5 | 6 => { let (ro, d) = (*self.r.pick(&["c", "p"]), *self.r.pick(&TOK)); self.defect(&format!("{}{}", ro, x), d) }
                    _ => { let (m, d) = (*self.r.pick(&["N1", "N2"]), *self.r.pick(&MINT)); self.defect(m, d) }
                }
            }
            for o in ["oo1", "oo2"].iter() {
                self.raw(o, pid, rent(abi::OO_LEN), Data::new(abi::OO_LEN));
            }
            let dis = std::str::FromStr::from_str(crate::dex::DISABLE_AUTH).unwrap();
            self.w.add("DIS", dis, system_program::ID, 1, Data::new(0));
            self.names = self.w.accs.iter().map(|a| (a.key.to_bytes(), a.name.clone())).collect();
            self.emit_world();
            for _ in 0..self.r.range(1, 6) {
                let x = *self.r.pick(&["A", "B"]);
                let y = if x == "A" { "B" } else { "A" };
                let mut ac = Self::full(x);
                let k = if x == "A" { *self.r.pick(&[0u64, 0, 0, 1]) } else { self.r.below(4) };
                if self.r.chance(1, 2) {
                    let i = self.r.below(7) as usize;
                    let to = match self.r.below(5) {
                        0 | 1 => Self::full(y)[i].clone(),
                        2 => Self::full(x)[self.r.below(5) as usize].clone(),
                        3 if i < 5 => (*self.r.pick(&["oo1", "oo2"])).to_string(),
                        _ => ac[i].clone(),
                    };
                    ac[i] = to;
                }
                for a in ["a1", "a2", "a3", "a4"].iter().take(k as usize) { ac.push(a.to_string()) }
                if self.r.chance(1, 20) { ac.truncate(9) }
                let nn = *self.r.pick(&["ok", "ok", "ok", "ok", "ok", "alt", "none"]);
                let (c, p, f, d) = (self.n64(), self.n64(), self.r.next() as u16, self.n64());
                let made = self.create(nn, &ac, c, p, f, d);
                // live accounts of the new market: an open orders account, a closed one, the market disabled
                if made && self.r.chance(2, 3) {
                    let (mk, u) = (self.w.key(&ac[0]), self.w.key("U"));
                    let oa = self.w.key("a1");
                    let oo = self.w.key("oo1");
                    let i = ix::init_open_orders(&pid, &oo, &u, &mk, if ac.len() > 10 { Some(&oa) } else { None }).unwrap();
                    if self.sys(i) && self.r.chance(1, 2) {
                        let i = ix::close_open_orders(&pid, &oo, &u, &u, &mk).unwrap();
                        self.sys(i);
                    }
                    if self.r.chance(1, 3) {
                        let i = ix::disable_market(&pid, &mk, &self.w.key("DIS")).unwrap();
                        self.sys(i);
                    }
                    self.emit_world();
                }
            }
        }
    }
}
