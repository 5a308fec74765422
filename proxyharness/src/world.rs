//! A miniature Solana runtime with nested calls: the proxy under test calls the real exchange, the real token
//! processor and a small system program. Privileges are those of the transaction, not what the caller claims.
use solana_program::{
    account_info::AccountInfo, clock::Clock, entrypoint::ProgramResult, instruction::Instruction, program_error::ProgramError, pubkey::Pubkey,
    rent::Rent, system_instruction::SystemInstruction, system_program,
};
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Account data lives at an address = 3 (mod 8), as exchange accounts need (5-byte header, then u64s).
#[derive(Clone)]
pub struct Data {
    buf: Vec<u64>,
    len: usize,
}
impl Data {
    pub fn cap(len: usize, cap: usize) -> Self {
        Data { buf: vec![0; cap.max(len) / 8 + 3], len }
    }
    pub fn new(len: usize) -> Self {
        Data::cap(len, len)
    }
    pub fn from(b: &[u8]) -> Self {
        let mut d = Data::new(b.len());
        d.bytes_mut().copy_from_slice(b);
        d
    }
    pub fn bytes(&self) -> &[u8] {
        &bytemuck::cast_slice::<u64, u8>(&self.buf)[3..3 + self.len]
    }
    pub fn bytes_mut(&mut self) -> &mut [u8] {
        &mut bytemuck::cast_slice_mut::<u64, u8>(&mut self.buf)[3..3 + self.len]
    }
    fn wipe(&mut self) {
        for b in self.buf.iter_mut() {
            *b = 0
        }
        self.len = 0
    }
}

#[derive(Clone)]
pub struct Acc {
    pub name: String,
    pub key: Pubkey,
    pub owner: Pubkey,
    pub lamports: u64,
    pub data: Data,
}
#[derive(Clone, Copy, Debug)]
pub struct Ref {
    pub acc: usize,
    pub signer: bool,
    pub writable: bool,
}
/// one call that reached another program
#[derive(Clone)]
pub struct Cpi {
    pub prog: Pubkey,
    pub metas: Vec<(Pubkey, bool, bool)>,
    pub data: Vec<u8>,
    pub ok: bool,
}

#[derive(Default)]
pub struct World {
    pub accs: Vec<Acc>,
    pub by_key: HashMap<Pubkey, usize>,
    pub by_name: HashMap<String, usize>,
    pub clock: i64,
    key_ctr: u64,
}

struct Frame {
    prog: Pubkey,
    privs: HashMap<Pubkey, (bool, bool)>,
}
thread_local! {
    static STACK: RefCell<Vec<Frame>> = RefCell::new(vec![]);
    static NOW: RefCell<i64> = RefCell::new(0);
    /// programs present in the transaction
    static PROGS: RefCell<Vec<Pubkey>> = RefCell::new(vec![]);
    /// how much an account's buffer can hold
    static CAPS: RefCell<HashMap<Pubkey, usize>> = RefCell::new(HashMap::new());
    pub static CPIS: RefCell<Vec<Cpi>> = RefCell::new(vec![]);
}

fn set_owner(a: &AccountInfo, o: &Pubkey) {
    unsafe { std::ptr::write_volatile(a.owner as *const Pubkey as *mut Pubkey, *o) }
}
fn set_len(a: &AccountInfo, n: usize) -> ProgramResult {
    if CAPS.with(|c| c.borrow().get(a.key).copied().unwrap_or(0)) < n {
        return Err(ProgramError::AccountDataTooSmall);
    }
    let mut d = a.data.borrow_mut();
    let p = d.as_mut_ptr();
    *d = unsafe { std::slice::from_raw_parts_mut(p, n) };
    for b in d.iter_mut() {
        *b = 0
    }
    Ok(())
}
fn unused(a: &AccountInfo) -> bool {
    a.data_is_empty() && *a.owner == system_program::ID
}
fn system(a: &[AccountInfo], d: &[u8]) -> ProgramResult {
    let give = |from: &AccountInfo, to: &AccountInfo, n: u64| -> ProgramResult {
        if !from.is_signer || !from.is_writable || !to.is_writable {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if !from.data_is_empty() || *from.owner != system_program::ID {
            return Err(ProgramError::InvalidArgument);
        }
        if from.lamports() < n {
            return Err(ProgramError::InsufficientFunds);
        }
        **from.lamports.borrow_mut() -= n;
        **to.lamports.borrow_mut() += n;
        Ok(())
    };
    match bincode::deserialize::<SystemInstruction>(d).map_err(|_| ProgramError::InvalidInstructionData)? {
        SystemInstruction::CreateAccount { lamports, space, owner } => {
            if a[1].lamports() > 0 || !unused(&a[1]) || !a[1].is_signer {
                return Err(ProgramError::AccountAlreadyInitialized);
            }
            set_len(&a[1], space as usize)?;
            set_owner(&a[1], &owner);
            give(&a[0], &a[1], lamports)
        }
        SystemInstruction::Transfer { lamports } => give(&a[0], &a[1], lamports),
        SystemInstruction::Allocate { space } => {
            if !unused(&a[0]) || !a[0].is_signer {
                return Err(ProgramError::AccountAlreadyInitialized);
            }
            set_len(&a[0], space as usize)
        }
        SystemInstruction::Assign { owner } => {
            if *a[0].owner != system_program::ID || !a[0].is_signer {
                return Err(ProgramError::IllegalOwner);
            }
            set_owner(&a[0], &owner);
            Ok(())
        }
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

pub struct Stubs;
impl solana_program::program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        if !PROGS.with(|p| p.borrow().contains(&ix.program_id)) {
            return Err(ProgramError::NotEnoughAccountKeys);
        }
        let caller = STACK.with(|s| s.borrow().last().unwrap().prog);
        let mut pdas = vec![];
        for s in seeds {
            pdas.push(Pubkey::create_program_address(s, &caller).map_err(|_| ProgramError::InvalidSeeds)?);
        }
        let mut v: Vec<AccountInfo> = vec![];
        let mut privs: HashMap<Pubkey, (bool, bool)> = HashMap::new();
        for m in &ix.accounts {
            let i = infos.iter().find(|i| *i.key == m.pubkey).ok_or(ProgramError::NotEnoughAccountKeys)?;
            i.try_borrow_mut_lamports()?;
            i.try_borrow_mut_data()?;
            let (s, w) = STACK.with(|s| s.borrow().last().unwrap().privs.get(&m.pubkey).copied()).ok_or(ProgramError::NotEnoughAccountKeys)?;
            if m.is_signer && !s && !pdas.contains(&m.pubkey) {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if m.is_writable && !w {
                return Err(ProgramError::InvalidAccountData);
            }
            let e = privs.entry(m.pubkey).or_insert((false, false));
            e.0 |= m.is_signer;
            e.1 |= m.is_writable;
            v.push(i.clone());
        }
        for i in v.iter_mut() {
            let p = privs[i.key];
            i.is_signer = p.0;
            i.is_writable = p.1;
        }
        let depth = STACK.with(|s| s.borrow().len());
        let at = CPIS.with(|c| {
            let mut c = c.borrow_mut();
            if depth == 1 {
                c.push(Cpi { prog: ix.program_id, metas: ix.accounts.iter().map(|m| (m.pubkey, m.is_signer, m.is_writable)).collect(), data: ix.data.clone(), ok: false });
            }
            c.len()
        });
        STACK.with(|s| s.borrow_mut().push(Frame { prog: ix.program_id, privs: privs.clone() }));
        let before: Vec<(u64, Vec<u8>)> = v.iter().map(|i| (i.lamports(), i.data.borrow().to_vec())).collect();
        let r = if ix.program_id == spl_token::ID {
            spl_token::processor::Processor::process(&ix.program_id, &v, &ix.data)
        } else if ix.program_id == system_program::ID {
            system(&v, &ix.data)
        } else if ix.program_id == anchor_spl::dex::ID {
            serum_dex_permissioned::serum_dex::state::State::process(&ix.program_id, &v, &ix.data).map_err(|e| e.into())
        } else {
            Err(ProgramError::IncorrectProgramId)
        };
        STACK.with(|s| s.borrow_mut().truncate(depth));
        r?;
        for (i, b) in v.iter().zip(before) {
            if !i.is_writable && (i.lamports() != b.0 || **i.data.borrow() != b.1[..]) {
                return Err(ProgramError::InvalidAccountData);
            }
        }
        if depth == 1 {
            CPIS.with(|c| c.borrow_mut()[at - 1].ok = true);
        }
        Ok(())
    }
    fn sol_get_clock_sysvar(&self, var_addr: *mut u8) -> u64 {
        let c = Clock { unix_timestamp: NOW.with(|n| *n.borrow()), ..Clock::default() };
        unsafe { std::ptr::write_unaligned(var_addr as *mut Clock, c) };
        0
    }
    fn sol_get_rent_sysvar(&self, var_addr: *mut u8) -> u64 {
        unsafe { std::ptr::write_unaligned(var_addr as *mut Rent, Rent::default()) };
        0
    }
}

impl World {
    pub fn fresh_key(&mut self, salt: u64) -> Pubkey {
        self.key_ctr += 1;
        let mut r = Rng(salt ^ self.key_ctr.wrapping_mul(0x9E3779B97F4A7C15));
        let mut b = [0u8; 32];
        for c in b.chunks_exact_mut(8) {
            c.copy_from_slice(&r.next().to_le_bytes());
        }
        Pubkey::new(&b)
    }
    pub fn add(&mut self, name: &str, key: Pubkey, owner: Pubkey, lamports: u64, data: Data) -> usize {
        let i = self.accs.len();
        assert!(!self.by_name.contains_key(name), "dup name {}", name);
        CAPS.with(|c| c.borrow_mut().insert(key, data.buf.len() * 8 - 16));
        self.accs.push(Acc { name: name.into(), key, owner, lamports, data });
        self.by_key.insert(key, i);
        self.by_name.insert(name.into(), i);
        i
    }
    pub fn idx(&self, name: &str) -> usize {
        *self.by_name.get(name).unwrap_or_else(|| panic!("no account {}", name))
    }
    pub fn key(&self, name: &str) -> Pubkey {
        self.accs[self.idx(name)].key
    }
    /// Runs one top-level instruction the way the runtime would; on any failure every account is as before.
    pub fn run(&mut self, prog: &Pubkey, refs: &[Ref], data: &[u8], entry: &dyn Fn(&Pubkey, &[AccountInfo], &[u8]) -> ProgramResult) -> bool {
        NOW.with(|n| *n.borrow_mut() = self.clock);
        CPIS.with(|c| c.borrow_mut().clear());
        let mut uniq: Vec<usize> = vec![];
        let mut privs: HashMap<Pubkey, (bool, bool)> = HashMap::new();
        for r in refs {
            if !uniq.contains(&r.acc) {
                uniq.push(r.acc)
            }
            let e = privs.entry(self.accs[r.acc].key).or_insert((false, false));
            e.0 |= r.signer;
            e.1 |= r.writable;
        }
        PROGS.with(|p| *p.borrow_mut() = uniq.iter().map(|&i| self.accs[i].key).collect());
        STACK.with(|s| *s.borrow_mut() = vec![Frame { prog: *prog, privs: privs.clone() }]);
        let saved: Vec<(usize, Acc)> = uniq.iter().map(|&i| (i, self.accs[i].clone())).collect();
        let mut ok;
        let mut lens: Vec<(usize, usize)> = vec![];
        {
            let base = self.accs.as_mut_ptr();
            let mut infos: HashMap<usize, AccountInfo> = HashMap::new();
            for &i in &uniq {
                // distinct indices: disjoint borrows
                let a: &mut Acc = unsafe { &mut *base.add(i) };
                let (s, w) = privs[&a.key];
                let Acc { key, owner, lamports, data, .. } = a;
                infos.insert(i, AccountInfo::new(key, s, w, lamports, data.bytes_mut(), owner, false, 0));
            }
            let list: Vec<AccountInfo> = refs.iter().map(|r| infos[&r.acc].clone()).collect();
            ok = matches!(catch_unwind(AssertUnwindSafe(|| entry(prog, &list, data))), Ok(Ok(())));
            for &i in &uniq {
                lens.push((i, unsafe { (*infos[&i].data.as_ptr()).len() }));
            }
        }
        for (i, n) in lens {
            self.accs[i].data.len = n;
        }
        if ok {
            // runtime post-checks
            let before: u128 = saved.iter().map(|s| s.1.lamports as u128).sum();
            let after: u128 = uniq.iter().map(|&i| self.accs[i].lamports as u128).sum();
            ok = before == after;
            for (i, b) in &saved {
                let a = &self.accs[*i];
                if !privs[&a.key].1 && (a.data.bytes() != b.data.bytes() || a.lamports != b.lamports || a.owner != b.owner) {
                    ok = false;
                }
            }
        }
        if !ok {
            for (i, a) in saved {
                self.accs[i] = a;
            }
        } else {
            for i in uniq {
                let a = &mut self.accs[i];
                if a.lamports == 0 && a.data.len > 0 {
                    a.data.wipe();
                    a.owner = system_program::ID;
                }
            }
        }
        ok
    }
}

/// SplitMix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
}
