//! Runs the assert-owner program through its entrypoint, as the loader does, ahead of a payment; judged by GuardTrace.tla.
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::Write as _;

struct Silent;
impl solana_program::program_stubs::SyscallStubs for Silent {
    fn sol_log(&self, _: &str) {}
}
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

struct Acc {
    own: [u8; 32],
    data: Vec<u8>,
    bal: u64,
    lam: u64,
}
fn addr(n: &str) -> [u8; 32] {
    let mut k = [7u8; 32];
    k[..n.len()].copy_from_slice(n.as_bytes());
    k
}
const ME: [u8; 32] = [5; 32];

/// the loader's input region: accounts, data, program id
fn region(accs: &BTreeMap<String, Acc>, ac: &[String], d: &[u8], flags: u64) -> Vec<u64> {
    let mut b: Vec<u8> = vec![];
    b.extend(&(ac.len() as u64).to_le_bytes());
    for (i, n) in ac.iter().enumerate() {
        if let Some(j) = ac[..i].iter().position(|m| m == n) {
            b.extend(&[j as u8, 0, 0, 0, 0, 0, 0, 0]);
            continue;
        }
        let a = &accs[n];
        let f = flags >> (3 * i);
        b.extend(&[0xff, f as u8 & 1, (f >> 1) as u8 & 1, (f >> 2) as u8 & 1, 0, 0, 0, 0]);
        b.extend(&addr(n));
        b.extend(&a.own);
        b.extend(&(a.lam + a.bal).to_le_bytes());
        b.extend(&(a.data.len() as u64).to_le_bytes());
        b.extend(&a.data);
        b.resize(b.len() + 10 * 1024, 0);
        while b.len() % 8 != 0 {
            b.push(0)
        }
        b.extend(&9u64.to_le_bytes());
    }
    b.extend(&(d.len() as u64).to_le_bytes());
    b.extend(d);
    b.extend(&ME);
    while b.len() % 8 != 0 {
        b.push(0)
    }
    b.chunks_exact(8).map(|c| { let mut x = [0; 8]; x.copy_from_slice(c); u64::from_le_bytes(x) }).collect()
}

struct W {
    accs: BTreeMap<String, Acc>,
    out: std::io::BufWriter<std::fs::File>,
    mark: String,
    lines: u64,
    ok: u64,
}
fn list(b: &[u8]) -> String {
    b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
impl W {
    fn own(&mut self, a: &str, k: [u8; 32]) {
        let n = self.accs.len();
        self.accs.entry(a.into()).or_insert(Acc { own: k, data: vec![3; [0, 1, 82, 165, 7][n % 5]], bal: 0, lam: [1000, 0, 1, u64::MAX / 2][n % 4] }).own = k;
        self.lines += 1;
        writeln!(self.out, "{{\"op\":\"own\",\"a\":\"{}\",\"k\":[{}]}}", a, list(&k)).unwrap();
    }
    /// one transaction: the guard, then a coin to the first account
    fn pay(&mut self, ac: &[String], d: &[u8]) {
        let mut r = region(&self.accs, ac, d, Rng(self.lines).next());
        let before = r.clone();
        let mut s = String::new();
        let _ = write!(s, "{:?} [{}]", ac, list(d));
        let _ = std::fs::write(&self.mark, &s);
        let p = r.as_mut_ptr() as *mut u8;
        let ok = std::panic::catch_unwind(|| unsafe { serum_assert_owner::entrypoint(p) }).map_or(false, |c| c == 0);
        if ok {
            if let Some(n) = ac.get(0) {
                self.accs.get_mut(n).unwrap().bal += 1;
            }
            self.ok += 1;
        }
        self.lines += 1;
        let names: Vec<String> = ac.iter().map(|n| format!("\"{}\"", n)).collect();
        writeln!(
            self.out, "{{\"op\":\"pay\",\"ac\":[{}],\"d\":[{}],\"ok\":{},\"bal\":{},\"same\":{}}}",
            names.join(","), list(d), ok, ac.get(0).map_or(0, |n| self.accs[n].bal), r == before
        )
        .unwrap();
    }
}

fn key(n: &str) -> [u8; 32] {
    let mut k = [0u8; 32];
    for i in 0..32 {
        k[i] = i as u8 + 1;
    }
    match n {
        "F" => k[0] = 2,
        "L" => k[31] = 33,
        "Z" => k = [0; 32],
        _ => {}
    }
    k
}

// guard - <seed> <lines> <out> | guardm <scripts> <out>
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    solana_program::program_stubs::set_syscall_stubs(Box::new(Silent));
    let a: Vec<String> = std::env::args().collect();
    let out = a.last().unwrap().clone();
    let mut w = W { accs: BTreeMap::new(), out: std::io::BufWriter::new(std::fs::File::create(&out).unwrap()), mark: format!("{}.mark", out), lines: 0, ok: 0 };
    if a[1] == "guardm" {
        for l in std::fs::read_to_string(&a[2]).unwrap().lines() {
            let mut t = l.split_whitespace();
            while let Some(k) = t.next() {
                let (x, y) = (t.next().unwrap(), t.next().unwrap());
                if k == "o" {
                    w.own(x, key(y));
                    continue;
                }
                let ac: Vec<String> = x.chars().filter(|c| *c != '.').map(|c| c.to_string()).collect();
                let mut d = key(&y[..1]).to_vec();
                match &y[1..] {
                    "<" => d.truncate(31),
                    ">" => d.push(0),
                    "+" => d.extend(key(&y[..1])),
                    "-" => d.clear(),
                    _ => {}
                }
                w.pay(&ac, &d);
            }
        }
    } else {
        let mut r = Rng(a[3].parse::<u64>().unwrap().wrapping_mul(31));
        let n: u64 = a[4].parse().unwrap();
        let mut k = |r: &mut Rng| {
            let mut k = [0u8; 32];
            if r.below(8) > 0 {
                for b in k.iter_mut() {
                    *b = r.next() as u8
                }
            } else if r.below(2) == 0 {
                k = ME
            }
            k
        };
        for x in ["a", "b", "c", "e"] {
            let q = k(&mut r);
            w.own(x, q);
        }
        while w.lines < n {
            if r.below(6) == 0 {
                let x = ["a", "b", "c", "e"][r.below(4) as usize];
                let mut q = k(&mut r);
                if r.below(2) == 0 {
                    // a close relative of the owner it had
                    q = w.accs[x].own;
                    let z = w.accs.get_mut(x).unwrap();
                    z.data = vec![1; r.below(300) as usize];
                    z.lam = r.below(3) * 5000;
                    q[r.below(32) as usize] ^= 1 << r.below(8);
                }
                w.own(x, q);
                continue;
            }
            let m = [0, 1, 1, 1, 2, 3, 5][r.below(7) as usize];
            let ac: Vec<String> = (0..m).map(|_| ["a", "b", "c", "e"][r.below(4) as usize].to_string()).collect();
            // usually about the right owner; sometimes somebody else's, damaged, cut or extended
            let about = if r.below(5) == 0 || ac.is_empty() { ["a", "b", "c", "e"][r.below(4) as usize].to_string() } else { ac[0].clone() };
            let mut d = w.accs[&about].own.to_vec();
            match r.below(10) {
                0..=2 => d[r.below(32) as usize] ^= 1 << r.below(8),
                3 => d.truncate(r.below(33) as usize),
                4 => {
                    let x = r.below(70) as usize;
                    let z = r.below(2) == 0;
                    for i in 0..x {
                        d.push(if z { 0 } else { i as u8 })
                    }
                }
                5 => d.rotate_left(1),
                6 => d = [ME.to_vec(), addr(&about).to_vec(), vec![0; 32]][r.below(3) as usize].clone(),
                _ => {}
            }
            w.pay(&ac, &d);
        }
    }
    w.out.flush().unwrap();
    println!("{{\"lines\":{},\"ok\":{},\"kinds\":{{\"guard\":[{},{}]}}}}", w.lines, w.ok, w.ok, w.lines - w.ok);
    let _ = std::fs::remove_file(&w.mark);
}
