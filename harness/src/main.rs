mod abi;
mod codec;
mod create;
mod dex;
mod gen;
mod replay;
mod world;

use std::fs::File;
use std::io::{BufWriter, Write};

static mut MARK: Option<String> = None;
/// The instruction about to run, on disk, so that a crash or a hang of the code under test is attributable.
pub fn mark(s: &str) {
    #[allow(static_mut_refs)]
    if let Some(p) = unsafe { MARK.as_ref() } {
        let _ = std::fs::write(p, s);
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let r = std::panic::catch_unwind(|| run(&a));
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        eprintln!("harness failure: {}", m);
        std::process::exit(3);
    }
}

fn run(a: &[String]) {
    solana_program::program_stubs::set_syscall_stubs(Box::new(world::Stubs));
    match a.get(1).map(|s| s.as_str()) {
        // gen <profile> <seed> <instructions> <out>
        Some("gen") => {
            let seed: u64 = a[3].parse().unwrap();
            let n: u64 = a[4].parse().unwrap();
            unsafe { MARK = Some(format!("{}.mark", a[5])) };
            let out = BufWriter::new(File::create(&a[5]).unwrap());
            let mut g = gen::Gen::new(&a[2], seed, Box::new(out));
            g.total = n;
            while g.d.lines < n {
                if (g.p.adv >= 30) && g.d.lines > n / 8 && g.r.chance(1, 6) { g.audit() } else { g.step() }
            }
            g.drain();
            g.d.out.flush().unwrap();
            stats(&g.d);
            let _ = std::fs::remove_file(format!("{}.mark", a[5]));
        }
        // replay <start> <perm> <scripts> <out>
        Some("replay") => {
            unsafe { MARK = Some(format!("{}.mark", a[5])) };
            let out = BufWriter::new(File::create(&a[5]).unwrap());
            let text = std::fs::read_to_string(&a[4]).unwrap();
            let mut r = replay::Replay::new(&a[2], a[3].parse().unwrap(), Box::new(out));
            r.run(&text);
            r.d.out.flush().unwrap();
            stats(&r.d);
            let _ = std::fs::remove_file(format!("{}.mark", a[5]));
        }
        // codec <-> <seed> <lines> <out>
        Some("codec") => {
            let seed: u64 = a[3].parse().unwrap();
            unsafe { MARK = Some(format!("{}.mark", a[5])) };
            let mut c = codec::Codec::new(seed, Box::new(BufWriter::new(File::create(&a[5]).unwrap())));
            c.gen(a[4].parse().unwrap(), seed % 100_000);
            c.out.flush().unwrap();
            kinds(c.lines, c.ok, &c.kinds);
            let _ = std::fs::remove_file(format!("{}.mark", a[5]));
        }
        // decode <file of byte strings> <out>
        Some("decode") => {
            unsafe { MARK = Some(format!("{}.mark", a[3])) };
            let mut c = codec::Codec::new(0, Box::new(BufWriter::new(File::create(&a[3]).unwrap())));
            c.vectors(&std::fs::read_to_string(&a[2]).unwrap());
            c.out.flush().unwrap();
            kinds(c.lines, c.ok, &c.kinds);
            let _ = std::fs::remove_file(format!("{}.mark", a[3]));
        }
        // create <-> <seed> <lines> <out>; createm <scripts> <out>
        Some("create") | Some("createm") => {
            let gen = a[1] == "create";
            let o = if gen { &a[5] } else { &a[3] };
            unsafe { MARK = Some(format!("{}.mark", o)) };
            let mut c = create::Create::new(if gen { a[3].parse().unwrap() } else { 7 }, Box::new(BufWriter::new(File::create(o).unwrap())));
            if gen { c.gen(a[4].parse().unwrap()) } else { c.replay(&std::fs::read_to_string(&a[2]).unwrap()) }
            c.out.flush().unwrap();
            kinds(c.lines, c.ok, &c.kinds);
            let _ = std::fs::remove_file(format!("{}.mark", o));
        }
        _ => panic!("usage"),
    }
}

fn stats(d: &dex::Dex) {
    kinds(d.lines, d.oks, &d.kinds)
}
fn kinds(lines: u64, ok: u64, kinds: &std::collections::BTreeMap<String, (u64, u64)>) {
    let k: Vec<String> = kinds.iter().map(|(k, v)| format!("\"{}\":[{},{}]", k, v.0, v.1)).collect();
    println!("{{\"lines\":{},\"ok\":{},\"kinds\":{{{}}}}}", lines, ok, k.join(","));
}
