#[path = "../../harness/src/abi.rs"]
mod abi;
#[path = "../../harness/src/dex.rs"]
#[allow(dead_code)]
mod dex;
mod ops;
mod rpc;
#[path = "../../harness/src/world.rs"]
#[allow(dead_code)]
mod world;

static mut MARK: Option<String> = None;
/// The operation about to run, on disk, so that a crash or a hang of the code under test is attributable.
pub fn mark(s: &str) {
    #[allow(static_mut_refs)]
    if let Some(p) = unsafe { MARK.as_ref() } {
        let _ = std::fs::write(p, s);
    }
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("CK_DEBUG").is_ok() {
            eprintln!("{}", i)
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    let r = std::panic::catch_unwind(|| run(&a));
    if let Err(e) = r {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        eprintln!("harness failure: {}", m);
        std::process::exit(3);
    }
    // crank threads may still be at it
    std::process::exit(0);
}

fn run(a: &[String]) {
    solana_program::program_stubs::set_syscall_stubs(Box::new(world::Stubs));
    world::KEYGEN.with(|k| *k.borrow_mut() = Some(rpc::keygen));
    // <mode> <profile> <seed> <steps> <out> | crankm <part> <scripts> <out>
    let out = a.last().unwrap().clone();
    unsafe { MARK = Some(format!("{}.mark", out)) };
    match a[1].as_str() {
        "crank" => ops::run(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), &out),
        "crankm" => ops::replay(&std::fs::read_to_string(&a[2]).unwrap(), &out),
        _ => panic!("usage"),
    }
    let _ = std::fs::remove_file(format!("{}.mark", out));
}
