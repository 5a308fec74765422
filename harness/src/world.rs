//! A miniature Solana runtime: accounts as owned byte buffers, privilege and ownership rules,
//! cross-program invocation into the real SPL token processor, all-or-nothing execution.
use solana_program::{
    account_info::AccountInfo, clock::Clock, entrypoint::ProgramResult, instruction::Instruction,
    program_error::ProgramError, pubkey::Pubkey, rent::Rent,
};
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Account data lives at an address = 3 (mod 8), as dex accounts need (5-byte header, then u64s).
#[derive(Clone)]
pub struct Data {
    buf: Vec<u64>,
    len: usize,
}
impl Data {
    pub fn new(len: usize) -> Self {
        Data { buf: vec![0; len / 8 + 3], len }
    }
    pub fn from(b: &[u8]) -> Self {
        let mut d = Data::new(b.len());
        d.bytes_mut().copy_from_slice(b);
        d
    }
    pub fn bytes(&self) -> &[u8] {
        &bytemuck::cast_slice::<u64, u8>(&self.buf)[3..3 + self.len]
    }
    pub fn bytes_mut(&mut self) -> &mut [u8] {
        &mut bytemuck::cast_slice_mut::<u64, u8>(&mut self.buf)[3..3 + self.len]
    }
}

#[derive(Clone)]
pub struct Acc {
    pub name: String,
    pub key: Pubkey,
    pub owner: Pubkey,
    pub lamports: u64,
    pub data: Data,
}

/// One account reference inside an instruction.
#[derive(Clone, Copy, Debug)]
pub struct Ref {
    pub acc: usize,
    pub signer: bool,
    pub writable: bool,
}

#[derive(Default)]
pub struct World {
    pub accs: Vec<Acc>,
    pub by_key: HashMap<Pubkey, usize>,
    pub by_name: HashMap<String, usize>,
    pub clock: i64,
    key_ctr: u64,
    keys: Vec<[u8; 32]>,
}

thread_local! {
    static CALLER: RefCell<Pubkey> = RefCell::new(Pubkey::default());
    static NOW: RefCell<i64> = RefCell::new(0);
    pub static CPIS: RefCell<u64> = RefCell::new(0);
    /// turns random bytes into an address (for worlds in which accounts have to sign for real)
    pub static KEYGEN: RefCell<Option<fn(&[u8; 32]) -> Pubkey>> = RefCell::new(None);
    /// a further program that may be called: receives its instruction data
    pub static OTHER: RefCell<Option<(Pubkey, Vec<u8>)>> = RefCell::new(None);
}

pub struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        CPIS.with(|c| *c.borrow_mut() += 1);
        let caller = CALLER.with(|c| *c.borrow());
        let mut pdas = vec![];
        for s in seeds {
            pdas.push(
                Pubkey::create_program_address(s, &caller)
                    .map_err(|_| ProgramError::InvalidSeeds)?,
            );
        }
        if ix.program_id != spl_token::ID && !OTHER.with(|o| o.borrow().as_ref().map_or(false, |o| o.0 == ix.program_id)) {
            return Err(ProgramError::IncorrectProgramId);
        }
        if !infos.iter().any(|i| *i.key == ix.program_id) {
            return Err(ProgramError::NotEnoughAccountKeys);
        }
        let mut v: Vec<AccountInfo> = vec![];
        for m in &ix.accounts {
            let i = infos
                .iter()
                .find(|i| *i.key == m.pubkey)
                .ok_or(ProgramError::NotEnoughAccountKeys)?;
            // the runtime refuses to run a callee on accounts the caller still borrows
            i.try_borrow_mut_lamports()?;
            i.try_borrow_mut_data()?;
            if m.is_signer && !i.is_signer && !pdas.contains(&m.pubkey) {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if m.is_writable && !i.is_writable {
                return Err(ProgramError::InvalidAccountData);
            }
            let mut c = i.clone();
            c.is_signer = m.is_signer;
            c.is_writable = m.is_writable;
            v.push(c);
        }
        if ix.program_id != spl_token::ID {
            OTHER.with(|o| o.borrow_mut().as_mut().unwrap().1 = ix.data.clone());
            return Ok(());
        }
        spl_token::processor::Processor::process(&ix.program_id, &v, &ix.data)
    }
    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        let c = Clock { unix_timestamp: NOW.with(|n| *n.borrow()), ..Clock::default() };
        unsafe { std::ptr::write_unaligned(var_addr as *mut Clock, c) };
        0
    }
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe { std::ptr::write_unaligned(var_addr as *mut Rent, Rent::default()) };
        0
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Outcome {
    Ok,
    Err(String),
}

impl World {
    pub fn new() -> Self {
        World::default()
    }
    /// Deterministic pseudo-random keys.
    pub fn fresh_key(&mut self, salt: u64) -> Pubkey {
        self.key_ctr += 1;
        let mut b = [0u8; 32];
        let mut x = salt ^ self.key_ctr.wrapping_mul(0x9E3779B97F4A7C15);
        for c in b.chunks_exact_mut(8) {
            x = x.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^= z >> 31;
            c.copy_from_slice(&z.to_le_bytes());
        }
        if let Some(f) = KEYGEN.with(|k| *k.borrow()) {
            return f(&b);
        }
        // half of the addresses differ from an earlier one in a single byte
        let z = u64::from_le_bytes([b[0], b[5], b[9], b[14], b[18], b[23], b[27], b[31]]);
        if z % 2 == 0 && !self.keys.is_empty() {
            let mut n = self.keys[(z >> 8) as usize % self.keys.len()];
            let i = ((z >> 40) % 32) as usize;
            n[i] ^= 1 << (z >> 48) % 8;
            if !self.keys.contains(&n) {
                b = n
            }
        }
        self.keys.push(b);
        Pubkey::new(&b)
    }
    pub fn add(&mut self, name: &str, key: Pubkey, owner: Pubkey, lamports: u64, data: Data) -> usize {
        let i = self.accs.len();
        assert!(!self.by_name.contains_key(name), "dup name {}", name);
        self.accs.push(Acc { name: name.into(), key, owner, lamports, data });
        self.by_key.insert(key, i);
        self.by_name.insert(name.into(), i);
        i
    }
    pub fn idx(&self, name: &str) -> usize {
        *self.by_name.get(name).unwrap_or_else(|| panic!("no account {}", name))
    }
    pub fn key(&self, name: &str) -> Pubkey {
        self.accs[self.idx(name)].key
    }
    /// Runs one top-level instruction the way the runtime would; on any failure every account is as before.
    pub fn run(
        &mut self,
        program_id: &Pubkey,
        refs: &[Ref],
        data: &[u8],
        entry: &dyn Fn(&Pubkey, &[AccountInfo], &[u8]) -> Result<(), String>,
    ) -> Outcome {
        CALLER.with(|c| *c.borrow_mut() = *program_id);
        NOW.with(|n| *n.borrow_mut() = self.clock);
        let mut uniq: Vec<usize> = vec![];
        for r in refs {
            if !uniq.contains(&r.acc) {
                uniq.push(r.acc)
            }
        }
        let saved: Vec<(usize, u64, Data)> =
            uniq.iter().map(|&i| (i, self.accs[i].lamports, self.accs[i].data.clone())).collect();
        // merge privileges of duplicates
        let mut privs: HashMap<usize, (bool, bool)> = HashMap::new();
        for r in refs {
            let e = privs.entry(r.acc).or_insert((false, false));
            e.0 |= r.signer;
            e.1 |= r.writable;
        }
        let res: Outcome;
        {
            let accs: &mut [Acc] = &mut self.accs;
            let base = accs.as_mut_ptr();
            let mut infos: HashMap<usize, AccountInfo> = HashMap::new();
            for &i in &uniq {
                // distinct indices: disjoint borrows
                let a: &mut Acc = unsafe { &mut *base.add(i) };
                let (s, w) = privs[&i];
                let Acc { key, owner, lamports, data, .. } = a;
                infos.insert(
                    i,
                    AccountInfo::new(key, s, w, lamports, data.bytes_mut(), owner, false, 0),
                );
            }
            let list: Vec<AccountInfo> = refs.iter().map(|r| infos[&r.acc].clone()).collect();
            drop(infos);
            res = match catch_unwind(AssertUnwindSafe(|| entry(program_id, &list, data))) {
                Ok(Ok(())) => Outcome::Ok,
                Ok(Err(e)) => Outcome::Err(e),
                Err(_) => Outcome::Err("panic".into()),
            };
        }
        let mut res = res;
        if res == Outcome::Ok {
            // runtime post-checks
            let before: u128 = saved.iter().map(|s| s.1 as u128).sum();
            let after: u128 = uniq.iter().map(|&i| self.accs[i].lamports as u128).sum();
            if before != after {
                res = Outcome::Err("unbalanced lamports".into());
            }
            for (i, lam, d) in &saved {
                let a = &self.accs[*i];
                let changed = a.data.bytes() != d.bytes();
                if (!privs[i].1) && (changed || a.lamports != *lam) {
                    res = Outcome::Err("read-only account modified".into());
                }
                if changed && a.owner != *program_id && a.owner != spl_token::ID {
                    res = Outcome::Err("foreign account modified".into());
                }
                if a.lamports < *lam && a.owner != *program_id {
                    res = Outcome::Err("foreign lamports spent".into());
                }
            }
        }
        if res != Outcome::Ok {
            for (i, lam, d) in saved {
                self.accs[i].lamports = lam;
                self.accs[i].data = d;
            }
        }
        res
    }
}

/// SplitMix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// log-uniform in [1, max]
    pub fn logu(&mut self, max: u64) -> u64 {
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.range(1, bits);
        let hi = if b == 64 { u64::MAX } else { (1 << b) - 1 };
        let lo = 1u64 << (b - 1);
        let v = lo + self.below((hi - lo).wrapping_add(1).max(1));
        v.min(max)
    }
}
