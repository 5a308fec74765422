//! Independent decoding of exchange accounts by their on-chain layout (never by the program's own code).
use std::convert::TryInto;
pub fn u64at(b: &[u8], o: usize) -> u64 {
    u64::from_le_bytes(b[o..o + 8].try_into().unwrap())
}
pub fn u32at(b: &[u8], o: usize) -> u32 {
    u32::from_le_bytes(b[o..o + 4].try_into().unwrap())
}
pub fn u128at(b: &[u8], o: usize) -> u128 {
    u128::from_le_bytes(b[o..o + 16].try_into().unwrap())
}
pub fn key_at(b: &[u8], o: usize) -> [u8; 32] {
    b[o..o + 32].try_into().unwrap()
}

#[derive(Clone, PartialEq, Debug)]
pub struct Order {
    pub id: u128,
    pub qty: u64,
    pub owner: [u8; 32],
    pub slot: u8,
    pub tier: u8,
    pub cid: u64,
}
impl Order {
    pub fn price(&self) -> u64 {
        (self.id >> 64) as u64
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Event {
    pub flags: u8,
    pub slot: u8,
    pub tier: u8,
    pub rcv: u64,
    pub paid: u64,
    pub fee: u64,
    pub id: u128,
    pub owner: [u8; 32],
    pub cid: u64,
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Oo {
    pub flags: u64,
    pub market: [u8; 32],
    pub owner: [u8; 32],
    pub cf: u64,
    pub ct: u64,
    pub pf: u64,
    pub pt: u64,
    pub free_bits: u128,
    pub bid_bits: u128,
    pub rb: u64,
    pub slots: Vec<(u8, u128, bool, u64)>,
    pub junk: bool, // a free slot whose bid bit/id/client id are not blank
}

pub const OO_LEN: usize = 3228;

pub fn oo(d: &[u8]) -> Oo {
    let b = &d[5..];
    let mut o = Oo {
        flags: u64at(b, 0),
        market: key_at(b, 8),
        owner: key_at(b, 40),
        cf: u64at(b, 72),
        ct: u64at(b, 80),
        pf: u64at(b, 88),
        pt: u64at(b, 96),
        free_bits: u128at(b, 104),
        bid_bits: u128at(b, 120),
        rb: u64at(b, 136 + 128 * 16 + 128 * 8),
        slots: vec![],
        junk: false,
    };
    if o.flags == 0 {
        return o;
    }
    for s in 0..128usize {
        let id = u128at(b, 136 + 16 * s);
        let cid = u64at(b, 136 + 128 * 16 + 8 * s);
        let bid = (o.bid_bits >> s) & 1 == 1;
        if (o.free_bits >> s) & 1 == 0 {
            o.slots.push((s as u8, id, bid, cid));
        } else if id != 0 || cid != 0 || bid {
            o.junk = true;
        }
    }
    o
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Mkt {
    pub flags: u64,
    pub coin_dep: u64,
    pub coin_fees: u64,
    pub pc_dep: u64,
    pub pc_fees: u64,
    pub rebates: u64,
    pub stat: u64, // digest of everything else in the account
}

pub fn fnv(seed: u64, b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ seed;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

pub fn mkt(d: &[u8]) -> Mkt {
    let b = &d[5..];
    let w = |i: usize| u64at(b, 8 * i);
    let mut z = d.to_vec();
    for i in [0usize, 18, 19, 24, 25, 46].iter() {
        for k in 0..8 {
            z[5 + 8 * i + k] = 0;
        }
    }
    Mkt {
        flags: w(0),
        coin_dep: w(18),
        coin_fees: w(19),
        pc_dep: w(24),
        pc_fees: w(25),
        rebates: w(46),
        stat: fnv(0, &z) & 0x7fff_ffff,
    }
}

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Queue {
    pub flags: u64,
    pub head: u64,
    pub count: u64,
    pub seq: u64,
    pub cap: u64,
    pub ok: bool,
    pub ev: Vec<Event>,
}

pub fn event_queue(d: &[u8]) -> Queue {
    let b = &d[5..d.len() - 7];
    let cap = ((b.len() - 32) / 88) as u64;
    let mut q = Queue {
        flags: u64at(b, 0),
        head: u64at(b, 8),
        count: u64at(b, 16),
        seq: u64at(b, 24),
        cap,
        ok: &d[..5] == b"serum" && &d[d.len() - 7..] == b"padding",
        ev: vec![],
    };
    if q.count > cap || q.head >= cap {
        q.ok = false;
        return q;
    }
    for i in 0..q.count {
        let o = 32 + 88 * (((q.head + i) % cap) as usize);
        q.ev.push(Event {
            flags: b[o],
            slot: b[o + 1],
            tier: b[o + 2],
            rcv: u64at(b, o + 8),
            paid: u64at(b, o + 16),
            fee: u64at(b, o + 24),
            id: u128at(b, o + 32),
            owner: key_at(b, o + 48),
            cid: u64at(b, o + 80),
        });
    }
    q
}

pub fn request_queue(d: &[u8]) -> (u64, u64, u64, u64) {
    let b = &d[5..];
    (u64at(b, 0), u64at(b, 8), u64at(b, 16), u64at(b, 24))
}

pub fn slab_nodes(len: usize) -> usize {
    (len - 12 - 8 - 32) / 72
}
/// max number of leaves a slab of n nodes can hold
pub fn slab_cap(len: usize) -> usize {
    (slab_nodes(len) + 1) / 2
}

/// In-order leaves (ascending key) of a book side, and a verdict on its structure.
pub fn book(d: &[u8]) -> (Vec<Order>, Result<(), String>) {
    slab(&d[13..d.len() - 7])
}
pub fn slab(b: &[u8]) -> (Vec<Order>, Result<(), String>) {
    let n = (b.len() - 32) / 72;
    let root = u32at(b, 20) as usize;
    let leaves = u64at(b, 24);
    let mut out = vec![];
    // every node ever handed out is either in the tree or back on the free list: a leaked node is
    // capacity the book never gets back
    let used = u64at(b, 0).wrapping_sub(u64at(b, 8));
    if leaves == 0 {
        if used != 0 {
            return (out, Err("leaked node".into()));
        }
        return (out, Ok(()));
    }
    // (node, prefix_len_min, prefix key)
    let mut stack: Vec<(usize, u32)> = vec![(root, 0)];
    let mut steps = 0;
    while let Some((h, depth)) = stack.pop() {
        steps += 1;
        if h >= n || steps > 2 * n + 2 {
            return (out, Err("broken tree".into()));
        }
        let o = 32 + 72 * h;
        match u32at(b, o) {
            1 => {
                let pl = u32at(b, o + 4);
                if pl < depth || pl >= 128 {
                    return (out, Err("bad prefix".into()));
                }
                let l = u32at(b, o + 24) as usize;
                let r = u32at(b, o + 28) as usize;
                stack.push((r, pl + 1));
                stack.push((l, pl + 1));
            }
            2 => out.push(Order {
                slot: b[o + 4],
                tier: b[o + 5],
                id: u128at(b, o + 8),
                owner: key_at(b, o + 24),
                qty: u64at(b, o + 56),
                cid: u64at(b, o + 64),
            }),
            _ => return (out, Err("dead node in tree".into())),
        }
    }
    if out.len() as u64 != leaves {
        return (out, Err("leaf count".into()));
    }
    for w in out.windows(2) {
        if w[0].id >= w[1].id {
            return (out, Err("keys out of order".into()));
        }
    }
    if used != 2 * leaves - 1 {
        return (out, Err("leaked node".into()));
    }
    (out, Ok(()))
}

pub fn token_amount(d: &[u8]) -> u64 {
    u64at(d, 64)
}
