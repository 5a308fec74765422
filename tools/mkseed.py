#!/usr/bin/env python3
"""mkseed.py [ids] : (re)generate /verif/seeded/<id>/ from the definitions in seeds/*.py-like blocks below.
Patches are made in a scratch clone of /repo's HEAD."""
import json, os, shutil, subprocess, sys, importlib.util
V = "/verif"
T = V + "/tools/seed"
S = []
def seed(id, prop, edits, scenario, needs, breaks, kind="dex"):
    S.append(dict(id=id, prop=prop, edits=edits, scenario=scenario, needs=needs, breaks=breaks, kind=kind))
exec(open(V + "/tools/seeds_dex.py").read())
for f in ("seeds_more.py", "seeds_client.py"):
    if os.path.exists(V + "/tools/" + f):
        exec(open(V + "/tools/" + f).read())
W = "/tmp/mkseed"
def main(ids):
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", W])
    for s in S:
        if ids and s["id"] not in ids: continue
        subprocess.check_call(["git", "-C", W, "checkout", "-q", "--", "."])
        for (f, old, new) in s["edits"]:
            p = W + "/" + f
            t = open(p).read()
            if t.count(old) < 1: print(s["id"], "NOT FOUND:", old[:80]); break
            open(p, "w").write(t.replace(old, new, 1))
        d = V + "/seeded/" + s["id"]
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + "/demo/src")
        diff = subprocess.check_output(["git", "-C", W, "diff"], text=True)
        open(d + "/patch.diff", "w").write(diff)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        shutil.copy(T + ("/demo_crank.sh" if s["kind"] == "crank" else "/demo.sh"), d + "/demo.sh")
        os.chmod(d + "/demo.sh", 0o755)
        if s["kind"] == "dex":
            shutil.copy(T + "/Cargo.toml", d + "/demo/Cargo.toml")
            lock = open(V + "/harness/Cargo.lock").read().replace('name = "dexharness"', 'name = "demo"')
            open(d + "/demo/Cargo.lock", "w").write(lock)
            for f in ("abi.rs", "dex.rs", "world.rs"):
                shutil.copy(V + "/harness/src/" + f, d + "/demo/src/" + f)
            shutil.copy(T + "/main.rs", d + "/demo/src/main.rs")
            open(d + "/demo/src/scenario.rs", "w").write(s["scenario"].lstrip())
        elif s["kind"] in ("pool", "proxy"):
            k = s["kind"]
            h = V + "/" + k + "harness"
            for f in ("Cargo.toml", "Cargo.lock"):
                open(d + "/demo/" + f, "w").write(open(h + "/" + f).read().replace('name = "%sharness"' % k, 'name = "demo"'))
            shutil.copy((h if k == "proxy" else V + "/harness") + "/src/world.rs", d + "/demo/src/world.rs")
            if k == "proxy": shutil.copy(V + "/harness/src/abi.rs", d + "/demo/src/abi.rs")
            src = open(h + "/src/%s.rs" % k).read()
            T2 = {"pool": "Pools", "proxy": "Proxy"}[k]
            open(d + "/demo/src/%s.rs" % k, "w").write(src + "\nimpl %s {\n    pub fn scenario(&mut self) {\n%s    }\n}\n" % (T2, s["scenario"].strip("\n") + "\n"))
            open(d + "/demo/src/main.rs", "w").write("#![allow(dead_code)]\nmod %s;\nmod world;\n%s\npub fn mark(_s: &str) {}\n\nfn main() {\n    solana_program::program_stubs::set_syscall_stubs(Box::new(world::Stubs));\n    %s::%s::new(7, Box::new(std::io::sink())).scenario();\n    println!(\"held\");\n}\n" % (k, "mod abi;" if k == "proxy" else "", k, T2))
        elif s["kind"] == "crank":
            h = V + "/crankharness"
            t = open(h + "/Cargo.toml").read().replace('name = "crankharness"', 'name = "demo"')
            open(d + "/demo/Cargo.toml", "w").write(t[:t.index("# production")])
            open(d + "/demo/Cargo.lock", "w").write(open(h + "/Cargo.lock").read().replace('name = "crankharness"', 'name = "demo"'))
            for f in ("abi.rs", "dex.rs", "world.rs"):
                shutil.copy(V + "/harness/src/" + f, d + "/demo/src/" + f)
            shutil.copy(h + "/src/rpc.rs", d + "/demo/src/rpc.rs")
            open(d + "/demo/src/ops.rs", "w").write(open(h + "/src/ops.rs").read() + "\npub fn scenario() {\n    let out = &*std::env::current_dir().unwrap().join(\"trace\").to_string_lossy().to_string();\n" + s["scenario"].strip("\n") + "\n}\n")
            m = open(h + "/src/main.rs").read().replace("../../harness/src/", "")
            i = m.index("fn main()")
            open(d + "/demo/src/main.rs", "w").write("#![allow(dead_code)]\n" + m[:i] + "fn main() {\n    solana_program::program_stubs::set_syscall_stubs(Box::new(world::Stubs));\n    world::KEYGEN.with(|k| *k.borrow_mut() = Some(rpc::keygen));\n    ops::scenario();\n    println!(\"held\");\n    std::process::exit(0);\n}\n")
        else:
            for (name, text) in s["scenario"].items():
                p = d + "/demo/" + name
                os.makedirs(os.path.dirname(p), exist_ok=True)
                open(p, "w").write(text)
        print("made", s["id"])
    shutil.rmtree(W, ignore_errors=True)
main(sys.argv[1:])
