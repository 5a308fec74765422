//! Drives the permissioned-market proxy; every call becomes a line judged by ProxyTrace.tla.
#![allow(dead_code)]
#[path = "../../harness/src/abi.rs"]
mod abi;
mod proxy;
mod world;

use std::fs::File;
use std::io::{BufWriter, Write};

static mut MARK: Option<String> = None;
pub fn mark(s: &str) {
    #[allow(static_mut_refs)]
    if let Some(p) = unsafe { MARK.as_ref() } {
        let _ = std::fs::write(p, s);
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    if let Err(e) = std::panic::catch_unwind(|| run(&a)) {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        eprintln!("harness failure: {}", m);
        std::process::exit(3);
    }
}

// proxy <profile> <seed> <lines> <out> | proxym <scripts> <out>
fn run(a: &[String]) {
    solana_program::program_stubs::set_syscall_stubs(Box::new(world::Stubs));
    let gen = a[1] == "proxy";
    let o = if gen { &a[5] } else { &a[3] };
    unsafe { MARK = Some(format!("{}.mark", o)) };
    let mut p = proxy::Proxy::new(if gen { a[3].parse().unwrap() } else { 7 }, Box::new(BufWriter::new(File::create(o).unwrap())));
    if gen { p.gen(&a[2], a[4].parse().unwrap()) } else { p.replay(&std::fs::read_to_string(&a[2]).unwrap()) }
    p.out.flush().unwrap();
    let k: Vec<String> = p.kinds.iter().map(|(k, v)| format!("\"{}\":[{},{}]", k, v.0, v.1)).collect();
    println!("{{\"lines\":{},\"ok\":{},\"kinds\":{{{}}}}}", p.lines, p.ok, k.join(","));
    let _ = std::fs::remove_file(format!("{}.mark", o));
}
