# planted bugs in the crank, the client library and the owner guard
CK = "dex/crank/src/lib.rs"

seed("crank-newest-owners", "C33",
  [(CK, "let accounts = seg0.iter().chain(seg1.iter()).map(|event| event.owner);", "let accounts = seg1.iter().chain(seg0.iter()).map(|event| event.owner);")],
  """
    let cfg = Cfg { markets: vec![MktCfg { eq_len: 128, ..MktCfg::default() }], users: 4, ..Cfg::default() };
    let mut c = Ck::new(cfg, false, 3, out);
    for u in 1..=4 {
        let op = c.d.op(0, Args::InitOo, &format!("U{}", u), &format!("O{}1a", u));
        c.d.exec(&op);
    }
    // up to the end of the ring, then over it: the older events are U1's, those past the end U2's, U3's and U4's
    for _ in 0..125 {
        c.arrive(0, "U1", false);
        let mut op = c.d.op(0, Args::Consume { limit: 8 }, "U1", "");
        op.roles.push(("oos", "O11a".into()));
        c.d.exec(&op);
    }
    for u in ["U1", "U1", "U1", "U2", "U3", "U4"].iter() {
        c.arrive(0, u, false);
    }
    assert_eq!(c.d.obs.mk["M1"].q.ev.len(), 6);
    c.keep_cranking(0, 1, 4, Some(2), 0, (None, None), 0);
    assert_eq!(c.d.obs.mk["M1"].q.ev.len(), 0, "the crank leaves events on the queue");
""", "a queue that wraps around the end of its ring, with events of at least as many owners past the end as the crank names, none of them the oldest event's",
  "the crank names the owners of the newest events only: it never consumes anything until somebody else does", kind="crank")

seed("crank-idle-on-few", "C33",
  [(CK, "for thread_num in 0..min(num_workers, 2 * event_q_len / events_per_worker + 1) {", "for thread_num in 0..min(num_workers, (2 * event_q_len + events_per_worker / 2) / events_per_worker) {")],
  """
    let cfg = Cfg { markets: vec![MktCfg { eq_len: 128, ..MktCfg::default() }], users: 4, ..Cfg::default() };
    let mut c = Ck::new(cfg, false, 3, out);
    for u in 1..=4 {
        let op = c.d.op(0, Args::InitOo, &format!("U{}", u), &format!("O{}1a", u));
        c.d.exec(&op);
    }
    for u in ["U1", "U2", "U3", "U4", "U1", "U2", "U3"].iter() {
        c.arrive(0, u, false);
    }
    // six go in the first round, the last one is left alone
    c.keep_cranking(0, 1, 6, None, 0, (None, None), 0);
    assert_eq!(c.d.obs.mk["M1"].q.ev.len(), 0, "the crank leaves events on the queue");
""", "fewer events left than a quarter of what a worker consumes at a time",
  "the crank sends nothing: the last events stay on the queue until more trading happens", kind="crank")

seed("settle-payer-as-owner", "C34",
  [(CK, "AccountMeta::new_readonly(signer.unwrap_or(payer).pubkey(), true),", "AccountMeta::new_readonly(payer.pubkey(), true),")],
  """
    let cfg = Cfg { users: 4, ..Cfg::default() };
    let mut c = Ck::new(cfg, false, 3, out);
    for u in 1..=4 {
        let op = c.d.op(0, Args::InitOo, &format!("U{}", u), &format!("O{}1a", u));
        c.d.exec(&op);
    }
    c.arrive(0, "U2", false);
    let free = |c: &Ck| c.d.obs.oo["O21a"].cf;
    assert!(free(&c) > 0);
    let (payer, signer) = (c.file("U3"), c.file("U2"));
    let w = &c.d.w;
    let o = c.opts(Command::SettleFunds {
        payer, dex_program_id: c.d.pid, market: w.key("M1"), orders: w.key("O21a"), coin_wallet: w.key("U2.0"), pc_wallet: w.key("U2.1"), signer: Some(signer),
    });
    let before = c.d.w.key("U2.0");
    let before = token_state(&c.d, &before).unwrap().2;
    assert_eq!(c.quiet("settle-funds", o), "ok", "settling on the owner's signature, paid for by somebody else");
    let after = c.d.w.key("U2.0");
    assert!(token_state(&c.d, &after).unwrap().2 > before);
""", "settle-funds with a signer (the owner) other than the payer of the transaction",
  "the settlement names the payer as the account's owner and is refused", kind="crank")

seed("minted-to-minter", "C34",
  [("common/src/client/rpc.rs", "        &recip_keypair.pubkey(),\n        mint,\n        &payer.pubkey(),", "        &recip_keypair.pubkey(),\n        mint,\n        &minting_key.pubkey(),")],
  """
    let cfg = Cfg { users: 4, ..Cfg::default() };
    let mut c = Ck::new(cfg, false, 3, out);
    let (p, a) = (c.user("U1"), c.user("U2"));
    let ak = a.pubkey();
    let (kp, kq, ka) = (c.user("U1"), c.user("U1"), c.user("U2"));
    drop((p, a));
    let mint = c.call("new_mint", move |cl| serum_common::client::rpc::new_mint(cl, &kp, &ak, 3).map(|(k, _)| k.pubkey()).map_err(|e| e.to_string())).unwrap();
    let t = c.call("mint_to_new_account", move |cl| serum_common::client::rpc::mint_to_new_account(cl, &kq, &ka, &mint, 1000).map(|k| k.pubkey()).map_err(|e| e.to_string())).unwrap();
    let st = token_state(&c.d, &t).unwrap();
    assert_eq!(st.2, 1000);
    assert!(st.1 == c.d.w.key("U1"), "the account belongs to the one who asked and paid for it");
""", "a mint authority different from the payer the tokens are meant for",
  "the new account and its tokens belong to the mint authority", kind="crank")

GUARD = """
fn region(lam: u64, own: &[u8; 32], d: &[u8]) -> Vec<u64> {
    let mut b: Vec<u8> = vec![];
    b.extend(&1u64.to_le_bytes());
    b.extend(&[0xff, 0, 1, 0, 0, 0, 0, 0]);
    b.extend(&[7u8; 32]);
    b.extend(own);
    b.extend(&lam.to_le_bytes());
    b.extend(&0u64.to_le_bytes());
    b.resize(b.len() + 10240, 0);
    b.extend(&9u64.to_le_bytes());
    b.extend(&(d.len() as u64).to_le_bytes());
    b.extend(d);
    b.extend(&[5u8; 32]);
    b.resize((b.len() + 7) / 8 * 8, 0);
    b.chunks_exact(8).map(|c| { let mut x = [0; 8]; x.copy_from_slice(c); u64::from_le_bytes(x) }).collect()
}
fn passes(lam: u64, own: &[u8; 32], d: &[u8]) -> bool {
    let mut r = region(lam, own, d);
    unsafe { serum_assert_owner::entrypoint(r.as_mut_ptr() as *mut u8) == 0 }
}
fn main() {
    let (a, b) = ([3u8; 32], [4u8; 32]);
    assert!(passes(1000, &a, &a) && !passes(1000, &a, &b));
%s
    println!("held");
}
"""
def guard(text):
    return {"Cargo.toml": open(V + "/guardharness/Cargo.toml").read().replace('name = "guardharness"', 'name = "demo"'),
            "Cargo.lock": open(V + "/guardharness/Cargo.lock").read().replace('name = "guardharness"', 'name = "demo"'),
            "src/main.rs": GUARD % text}
G = "assert-owner/src/lib.rs"

seed("guard-trailing-bytes", "C35",
  [(G, "if instruction_data.len() != 32 {", "if instruction_data.len() < 32 {"), (G, "Pubkey::new(instruction_data)", "Pubkey::new(&instruction_data[..32])")],
  guard("    let long: Vec<u8> = a.iter().chain(b.iter()).cloned().collect();\n    assert!(!passes(1000, &a, &long), \"data of the wrong length\");"),
  "instruction data longer than 32 bytes", "a malformed guard (two owners, say) is taken for a guard on the first", kind="files")

seed("guard-unfunded", "C35",
  [(G, "if expected_owner != *account.owner {", "if expected_owner != *account.owner && account.lamports() > 0 {")],
  guard("    assert!(!passes(0, &a, &b), \"an account of another owner\");"),
  "an account without lamports, owned by another program than the one named", "the payment after the guard reaches an account nobody has assigned to the named program", kind="files")
