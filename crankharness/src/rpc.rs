//! A stand-in for a cluster: a JSON-RPC server on the loopback interface in front of the mini-runtime. Whole
//! transactions are executed the way the cluster does: signatures, block hash, size limit, all or nothing.
use crate::abi;
use crate::dex::{entry, Dex};
use crate::world::{Data, Outcome, Ref};
use serde_json::{json, Value};
use solana_client::rpc_client::RpcClient;
use solana_sdk::hash::{hash, Hash};
use solana_sdk::instruction::InstructionError;
use solana_sdk::packet::PACKET_DATA_SIZE;
use solana_sdk::pubkey::Pubkey;
use solana_sdk::signature::{Keypair, Signer};
use solana_sdk::system_instruction::SystemInstruction;
use solana_sdk::system_program;
use solana_sdk::transaction::{Transaction, TransactionError};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{BufRead, BufReader, Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::time::Duration;

pub struct Call {
    pub method: String,
    pub params: Value,
    reply: Sender<Result<Value, (i64, String)>>,
}
impl Call {
    pub fn answer(self, v: Result<Value, (i64, String)>) {
        let _ = self.reply.send(v);
    }
}

/// an account made by a transaction
#[derive(Clone, Debug)]
pub struct Made {
    pub name: String,
    pub space: u64,
    pub lam: u64,
    pub own: Pubkey,
}

pub struct Net {
    pub url: String,
    calls: Receiver<Call>,
    pub slot: u64,
    hashes: Vec<Hash>,
    seen: HashSet<String>,
    status: HashMap<String, Option<TransactionError>>,
    /// transactions that were executed: (succeeded, simulated only)
    pub sent: u64,
    pub failed: u64,
    pub simulated: u64,
    pub toobig: u64,
    pub made: Vec<Made>,
    pub asked: BTreeMap<String, u64>,
}

thread_local! {
    pub static SEEDS: std::cell::RefCell<HashMap<Pubkey, [u8; 32]>> = Default::default();
}
/// an address somebody holds the key of
pub fn keygen(seed: &[u8; 32]) -> Pubkey {
    let k = solana_sdk::signer::keypair::keypair_from_seed(seed).unwrap();
    SEEDS.with(|s| s.borrow_mut().insert(k.pubkey(), *seed));
    k.pubkey()
}
pub fn keypair(k: &Pubkey) -> Keypair {
    SEEDS.with(|s| solana_sdk::signer::keypair::keypair_from_seed(&s.borrow()[k]).unwrap())
}

pub fn b64(b: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::with_capacity(b.len() * 4 / 3 + 4);
    for c in b.chunks(3) {
        let x = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(A[(x >> (18 - 6 * i)) as usize & 63] as char)
            } else {
                s.push('=')
            }
        }
    }
    s
}
fn unb64(s: &str) -> Vec<u8> {
    let mut out = vec![];
    let (mut x, mut n) = (0u32, 0);
    for c in s.bytes() {
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            _ => break,
        };
        x = x << 6 | v as u32;
        n += 6;
        if n >= 8 {
            n -= 8;
            out.push((x >> n) as u8);
        }
    }
    out
}

fn connection(s: TcpStream, to: Sender<Call>) {
    let _ = s.set_nodelay(true);
    let mut w = s.try_clone().unwrap();
    let mut r = BufReader::new(s);
    loop {
        let mut len = 0;
        let mut first = true;
        loop {
            let mut l = String::new();
            match r.read_line(&mut l) {
                Ok(0) | Err(_) => return,
                _ => {}
            }
            let t = l.trim();
            if t.is_empty() && !first {
                break;
            }
            first = false;
            let low = t.to_ascii_lowercase();
            if low.starts_with("content-length:") {
                len = low[15..].trim().parse().unwrap_or(0);
            }
        }
        let mut body = vec![0; len];
        if r.read_exact(&mut body).is_err() {
            return;
        }
        let v: Value = match serde_json::from_slice(&body) {
            Ok(v) => v,
            Err(_) => return,
        };
        let (tx, rx) = channel();
        let c = Call { method: v["method"].as_str().unwrap_or("").into(), params: v["params"].clone(), reply: tx };
        if to.send(c).is_err() {
            return;
        }
        let out = match rx.recv() {
            Ok(Ok(x)) => json!({"jsonrpc": "2.0", "id": v["id"], "result": x}),
            Ok(Err((code, m))) => json!({"jsonrpc": "2.0", "id": v["id"], "error": {"code": code, "message": m}}),
            Err(_) => return,
        }
        .to_string();
        if write!(w, "HTTP/1.1 200 OK\r\ncontent-type: application/json\r\ncontent-length: {}\r\n\r\n{}", out.len(), out).is_err() {
            return;
        }
    }
}

impl Net {
    pub fn new() -> Self {
        let l = TcpListener::bind("127.0.0.1:0").expect("loopback");
        let url = format!("http://{}", l.local_addr().unwrap());
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for s in l.incoming() {
                if let Ok(s) = s {
                    let tx = tx.clone();
                    std::thread::spawn(move || connection(s, tx));
                }
            }
        });
        let mut n = Net {
            url,
            calls: rx,
            slot: 10,
            hashes: vec![],
            seen: HashSet::new(),
            status: HashMap::new(),
            sent: 0,
            failed: 0,
            simulated: 0,
            toobig: 0,
            made: vec![],
            asked: BTreeMap::new(),
        };
        n.tick();
        n
    }
    /// time passes: a new slot and a new block hash
    pub fn tick(&mut self) {
        self.slot += 1;
        self.hashes.push(hash(&self.slot.to_le_bytes()));
    }
    pub fn next_call(&mut self, t: Duration) -> Result<Call, RecvTimeoutError> {
        self.calls.recv_timeout(t)
    }
    /// Runs client code while serving its requests. None: it panicked.
    pub fn client<T: Send + 'static>(&mut self, d: &mut Dex, f: impl FnOnce(&RpcClient) -> T + Send + 'static) -> Option<T> {
        self.sent = 0;
        self.failed = 0;
        self.simulated = 0;
        self.toobig = 0;
        self.made.clear();
        self.tick();
        let url = self.url.clone();
        let h = std::thread::spawn(move || {
            let c = RpcClient::new(url);
            f(&c)
        });
        while !h.is_finished() {
            if let Ok(c) = self.next_call(Duration::from_millis(2)) {
                self.serve(d, c);
            }
        }
        h.join().ok()
    }
    pub fn serve(&mut self, d: &mut Dex, c: Call) {
        let v = self.reply(d, &c.method, &c.params);
        c.answer(v)
    }
    pub fn decode(s: &str, enc: &str) -> Result<(Transaction, usize), String> {
        let b = if enc == "base64" { unb64(s) } else { bs58::decode(s).into_vec().map_err(|e| e.to_string())? };
        let n = b.len();
        bincode::deserialize::<Transaction>(&b).map(|t| (t, n)).map_err(|e| e.to_string())
    }
    pub fn reply(&mut self, d: &mut Dex, method: &str, p: &Value) -> Result<Value, (i64, String)> {
        *self.asked.entry(method.into()).or_insert(0) += 1;
        self.slot += 1;
        let ctx = json!({"slot": self.slot, "apiVersion": "1.10.3"});
        match method {
            "getVersion" => Ok(json!({"solana-core": "1.10.3", "feature-set": 1})),
            "getLatestBlockhash" => {
                Ok(json!({"context": ctx, "value": {"blockhash": self.hashes.last().unwrap().to_string(), "lastValidBlockHeight": self.slot + 150}}))
            }
            "isBlockhashValid" => Ok(json!({"context": ctx, "value": true})),
            "getMinimumBalanceForRentExemption" => Ok(json!(crate::dex::rent(p[0].as_u64().unwrap_or(0) as usize))),
            "getSlot" | "getBlockHeight" => Ok(json!(self.slot)),
            "getAccountInfo" => {
                let k: Pubkey = p[0].as_str().and_then(|s| s.parse().ok()).ok_or((-32602, "bad key".to_string()))?;
                let v = match d.w.by_key.get(&k).map(|&i| &d.w.accs[i]).filter(|a| a.lamports > 0) {
                    None => Value::Null,
                    Some(a) => json!({"lamports": a.lamports, "owner": a.owner.to_string(), "executable": false, "rentEpoch": 0,
                                      "data": [b64(a.data.bytes()), "base64"]}),
                };
                Ok(json!({"context": ctx, "value": v}))
            }
            "simulateTransaction" => {
                self.simulated += 1;
                let enc = p[1]["encoding"].as_str().unwrap_or("base58");
                let (t, n) = Self::decode(p[0].as_str().unwrap_or(""), enc).map_err(|e| (-32602, e))?;
                if n > PACKET_DATA_SIZE {
                    self.toobig += 1;
                    return Err((-32602, format!("encoded transaction too large: {} bytes", n)));
                }
                let made = self.made.clone();
                let r = self.transact(d, &t, true);
                self.made = made;
                let e = r.err().map(|e| serde_json::to_value(e).unwrap()).unwrap_or(Value::Null);
                Ok(json!({"context": ctx, "value": {"err": e, "logs": [], "accounts": null, "unitsConsumed": 0, "returnData": null}}))
            }
            "sendTransaction" => {
                let enc = p[1]["encoding"].as_str().unwrap_or("base58");
                let (t, n) = Self::decode(p[0].as_str().unwrap_or(""), enc).map_err(|e| (-32602, e))?;
                if n > PACKET_DATA_SIZE {
                    self.toobig += 1;
                    return Err((-32602, format!("encoded transaction too large: {} bytes", n)));
                }
                let skip = p[1]["skipPreflight"].as_bool().unwrap_or(false);
                let sig = t.signatures[0].to_string();
                let r = self.transact(d, &t, false);
                if let Err(e) = &r {
                    self.failed += 1;
                    if !skip {
                        return Err((-32002, format!("Transaction simulation failed: {}", e)));
                    }
                } else {
                    self.sent += 1;
                }
                self.status.insert(sig.clone(), r.err());
                Ok(json!(sig))
            }
            "getSignatureStatuses" => {
                let v: Vec<Value> = p[0]
                    .as_array()
                    .cloned()
                    .unwrap_or_default()
                    .iter()
                    .map(|s| match self.status.get(s.as_str().unwrap_or("")) {
                        None => Value::Null,
                        Some(e) => {
                            let ev = e.as_ref().map(|e| serde_json::to_value(e).unwrap()).unwrap_or(Value::Null);
                            let st = match e {
                                None => json!({"Ok": null}),
                                Some(_) => json!({"Err": ev}),
                            };
                            json!({"slot": self.slot, "confirmations": null, "status": st, "err": ev, "confirmationStatus": "finalized"})
                        }
                    })
                    .collect();
                Ok(json!({"context": ctx, "value": v}))
            }
            _ => Err((-32601, format!("Method not found: {}", method))),
        }
    }

    /// One transaction, all or nothing.
    pub fn transact(&mut self, d: &mut Dex, t: &Transaction, dry: bool) -> Result<(), TransactionError> {
        t.verify().map_err(|_| TransactionError::SignatureFailure)?;
        if !self.hashes.iter().rev().take(150).any(|h| *h == t.message.recent_blockhash) {
            return Err(TransactionError::BlockhashNotFound);
        }
        let sig = t.signatures[0].to_string();
        if self.seen.contains(&sig) {
            return Err(TransactionError::AlreadyProcessed);
        }
        let m = &t.message;
        let mut uniq = m.account_keys.clone();
        uniq.sort();
        uniq.dedup();
        if uniq.len() != m.account_keys.len() {
            return Err(TransactionError::AccountLoadedTwice);
        }
        match d.w.by_key.get(&m.account_keys[0]) {
            Some(&i) if d.w.accs[i].owner == system_program::ID && d.w.accs[i].lamports > 0 => {}
            _ => return Err(TransactionError::AccountNotFound),
        }
        for k in &m.account_keys {
            if !d.w.by_key.contains_key(k) {
                let n = format!("fake.n{}", d.w.accs.len());
                d.w.add(&n, *k, system_program::ID, 0, Data::new(0));
            }
        }
        let (accs, by_key, by_name, names, obs) = (d.w.accs.clone(), d.w.by_key.clone(), d.w.by_name.clone(), d.names.clone(), d.obs.clone());
        let mut err = None;
        let mut mid = None;
        for (n, i) in m.instructions.iter().enumerate() {
            let prog = m.account_keys[i.program_id_index as usize];
            let bad = |e: InstructionError| Some(TransactionError::InstructionError(n as u8, e));
            let at: Vec<usize> = i.accounts.iter().map(|&k| d.w.by_key[&m.account_keys[k as usize]]).collect();
            if prog == system_program::ID {
                let r = (|| -> Option<()> {
                    let a: Vec<(usize, bool, bool)> =
                        i.accounts.iter().zip(&at).map(|(&k, &x)| (x, m.is_signer(k as usize), m.is_writable(k as usize))).collect();
                    match bincode::deserialize::<SystemInstruction>(&i.data).ok()? {
                        SystemInstruction::CreateAccount { lamports, space, owner } => {
                            let (f, to) = (a.get(0)?, a.get(1)?);
                            if !f.1 || !f.2 || !to.1 || !to.2 || d.w.accs[f.0].lamports < lamports || d.w.accs[f.0].data.bytes().len() > 0 {
                                return None;
                            }
                            let payer = d.w.accs[f.0].name.clone();
                            let k = d.w.accs[to.0].key;
                            if d.w.accs[to.0].lamports > 0 || d.w.accs[to.0].owner != system_program::ID {
                                return None;
                            }
                            d.w.accs[f.0].lamports -= lamports;
                            let at = self.settle_name(d, &k, &payer, space, &owner);
                            let x = &mut d.w.accs[at];
                            x.lamports = lamports;
                            x.owner = owner;
                            x.data = Data::new(space as usize);
                            self.made.push(Made { name: x.name.clone(), space, lam: lamports, own: owner });
                            Some(())
                        }
                        SystemInstruction::Transfer { lamports } => {
                            let (f, to) = (a.get(0)?, a.get(1)?);
                            if !f.1 || !f.2 || !to.2 || d.w.accs[f.0].lamports < lamports || d.w.accs[f.0].owner != system_program::ID {
                                return None;
                            }
                            d.w.accs[f.0].lamports -= lamports;
                            d.w.accs[to.0].lamports += lamports;
                            Some(())
                        }
                        _ => None,
                    }
                })();
                if r.is_none() {
                    err = bad(InstructionError::InvalidArgument);
                } else if !self.made.is_empty() {
                    mid = Some(d.w.accs.clone());
                }
            } else {
                let refs: Vec<Ref> =
                    i.accounts.iter().zip(&at).map(|(&k, &x)| Ref { acc: x, signer: m.is_signer(k as usize), writable: m.is_writable(k as usize) }).collect();
                let r = if prog == d.pid {
                    d.w.run(&prog, &refs, &i.data, &entry)
                } else if prog == spl_token::ID {
                    d.w.run(&prog, &refs, &i.data, &|p, a, x| spl_token::processor::Processor::process(p, a, x).map_err(|e| e.to_string()))
                } else {
                    Outcome::Err("unknown program".into())
                };
                if let Outcome::Err(e) = r {
                    if std::env::var("CK_DEBUG").is_ok() {
                        eprintln!("instruction {} of {}: {}", n, prog, e);
                    }
                    err = bad(InstructionError::Custom(1));
                }
            }
            if err.is_some() {
                break;
            }
        }
        if err.is_some() || dry {
            d.w.accs = accs;
            d.w.by_key = by_key;
            d.w.by_name = by_name;
            d.names = names;
            d.obs = obs;
        } else {
            self.seen.insert(sig);
            // accounts made on the way are part of the environment's move
            if let (Some(mid), true) = (mid, d.emitted > 0) {
                let fin = std::mem::replace(&mut d.w.accs, mid);
                d.ext("recreate");
                d.w.accs = fin;
            }
        }
        err.map_or(Ok(()), Err)
    }
    /// The slot of the world a new account takes: an unused open-orders account of the payer, or one of its own.
    fn settle_name(&self, d: &mut Dex, k: &Pubkey, payer: &str, space: u64, owner: &Pubkey) -> usize {
        let old = d.w.by_key[k];
        if *owner == d.pid && space as usize == abi::OO_LEN {
            let pre = format!("O{}", &payer[1..]);
            let spare = d.oos.iter().find(|n| {
                n.starts_with(&pre) && n.len() == pre.len() + 2 && d.w.accs[d.w.idx(n)].data.bytes().iter().all(|b| *b == 0)
                    && SEEDS.with(|s| s.borrow().contains_key(&d.w.key(n)))
            });
            if let Some(n) = spare.cloned() {
                let at = d.w.idx(&n);
                let was = d.w.accs[at].key;
                d.w.by_key.remove(&was);
                d.w.accs[at].key = *k;
                d.w.by_key.insert(*k, at);
                d.names.insert(k.to_bytes(), n);
                // the throw-away slot keeps its place under a name of its own
                d.w.accs[old].key = was;
                d.w.by_key.insert(was, old);
                return at;
            }
        }
        old
    }
}
