"""What each property's check explores."""
LEVEL = "model_checking"
MODULE = {"gen": "Trace", "codec": "CodecTrace", "create": "CreateTrace", "pool": "PoolTrace", "proxy": "ProxyTrace", "crank": "CrankTrace", "guard": "GuardTrace"}
EXE = {"harness": "dexharness", "poolharness": "poolharness", "proxyharness": "proxyharness", "crankharness": "crankharness", "guardharness": "guardharness"}
ASSUMPTIONS = [
    "the in-process mini-runtime (accounts, rollback on error, CPI into the real SPL token processor) stands in for the Solana runtime",
    "account bytes are decoded by the harness's own ABI decoder, not by the code under test",
    "release arithmetic (no overflow checks), as deployed",
]

ALL = "base tight fees feex big full ring slots adv perm prune dis replace cancel take self close settle expiry".split()
# property -> {profile: weight}
MIX = {
    "C01": dict(base=3, tight=3, fees=3, big=4, full=1, ring=2, slots=1, perm=2, prune=2, replace=3, cancel=2, take=5, self=4, close=3, settle=4, adv=2, dis=1, expiry=1),
    "C02": dict(base=4, tight=4, fees=2, big=4, full=2, ring=2, slots=2, prune=4, replace=4, cancel=4, take=3, self=6, settle=2, close=2, perm=2),
    "C03": dict(base=6, tight=8, fees=3, big=5, full=3, ring=2, take=8, self=8, replace=4, expiry=2, slots=1),
    "C04": dict(base=6, tight=8, feex=4, fees=4, big=8, replace=6, take=10, self=6, full=1, expiry=2, settle=2),
    "C05": dict(base=6, tight=8, fees=5, big=8, replace=6, self=6, full=3, slots=2, ring=2, expiry=4, settle=2, close=2, adv=2),
    "C06": dict(base=5, tight=8, full=8, self=6, take=4, big=4, cancel=5, prune=4, replace=4, slots=2),
    "C07": dict(self=20, tight=6, base=4, big=4, fees=4, replace=4, take=4, full=2),
    "C08": dict(feex=14, fees=8, base=4, tight=4, big=8, take=8, self=4, replace=4, settle=3),
    "C09": dict(fees=20, take=10, adv=8, big=3, replace=6, base=2),
    "C10": dict(ring=16, full=4, base=4, tight=4, self=6, cancel=5, replace=4, prune=4, take=4),
    "C11": dict(ring=10, base=5, perm=8, self=6, adv=8, tight=4, close=6, full=2, prune=4, big=3),
    "C12": dict(cancel=16, base=4, adv=8, slots=4, full=3, dis=5, ring=4, replace=4, big=3),
    "C13": dict(settle=20, base=4, adv=8, fees=4, big=5, dis=5, close=6, take=3),
    "C14": dict(adv=24, perm=10, prune=8, dis=6, base=2),
    "C15": dict(adv=30, perm=10, prune=8, settle=3, base=2),
    "C16": dict(perm=24, prune=16, adv=12, base=3),
    "C17": dict(dis=36, adv=10, perm=6, prune=4),
    "C19": dict(slots=8, close=24, perm=10, adv=6, prune=4, base=3, ring=2),
    "C20": dict(base=5, slots=8, tight=4, full=4, self=6, replace=6, cancel=6, close=6, ring=4, prune=5, big=3, take=3),
    "C21": dict(replace=36, base=3, adv=6, expiry=6, slots=4, fees=3, full=2),
    "C22": dict(take=36, fees=6, base=4, tight=4, adv=6, big=6, full=2, ring=3),
    "C23": dict(settle=10, take=8, adv=14, dis=10, base=5, fees=8, close=3, big=3),
    "C24": dict(base=5, tight=4, fees=4, big=5, full=2, ring=3, slots=2, prune=4, dis=6, replace=4, cancel=4, take=6, self=5, close=5, settle=4, perm=4),
    "C25": dict(prune=48, perm=8, adv=6),
    "C26": dict(expiry=36, replace=10, base=4, adv=4),
}
# property -> bounded models explored exhaustively, whose histories are replayed on the real program
MODELS = {
    "C01": "match take self", "C02": "self crank cancel", "C03": "match self take", "C04": "budget match take",
    "C05": "match budget expiry", "C06": "match tiny self", "C07": "self selflim", "C08": "match take budget", "C09": "take match",
    "C10": "tiny crank match", "C11": "crank life perm3", "C12": "cancel cancel2 dis", "C13": "life crank dis", "C14": "dis perm3",
    "C15": "dis perm3", "C16": "perm1 perm2 perm3", "C17": "dis", "C19": "life perm1 tiny", "C20": "cancel2 tiny replace life",
    "C21": "replace expiry", "C22": "take", "C23": "life dis take", "C24": "life take dis", "C25": "perm2 perm3", "C26": "expiry replace",
}
PERM = {"perm1": 1, "perm2": 2, "perm3": 3}
# starting situation -> how many of a model's histories are replayed from it (quick); 0 = all
STARTS = {"fresh": 0, "rested": 300, "ring": 100, "wrap": 100, "nearfull": 60, "full": 60, "books": 40, "slots": 40, "jam": 60, "upper": 60}
SLOW = {"full": 300, "slots": 400}


# property -> small closed models: crate, module, cfg, library, printed pattern, harness mode, judge, label, lines per file
SIDE = {
    "C18": [("harness", "CreateMC", "CreateMC.cfg", "int", r'^"SCRIPT ?(.*)"$', "createm", "CreateTrace", "histories of the creation model", 1500)],
    "C27": [("harness", "CodecMC", "CodecMC.cfg", "big", r'^"BYTES <<([\d, ]*)>>"$', "decode", "CodecTrace", "byte strings of the wire model", 30000)],
}


for _p in ("C28", "C29", "C30", "C31"):
    SIDE[_p] = [("poolharness", "PoolMC", "PoolMC%s.cfg" % k, "int", r'^"SCRIPT (.*)"$', "poolm", "PoolTrace", "histories of the %s pool model" % k, 800)
                for k in (("plain", "admin") if _p != "C31" else ("admin",))]
SIDE["C32"] = [("proxyharness", "ProxyMC", "ProxyMC.cfg", "int", r'^"SCRIPT (.*)"$', "proxym", "ProxyTrace", "histories of the proxy model", 12)]
SIDE["C33"] = [("crankharness", "CrankMC", "CrankMC.cfg", "int", r'^"SCRIPT (.*)"$', "crankm", "CrankTrace", "histories of the crank model", 16)]
SIDE["C35"] = [("guardharness", "GuardMC", "GuardMC.cfg", "int", r'^"SCRIPT (.*)"$', "guardm", "GuardTrace", "histories of the guard model", 8000)]
CRANK = {"C33": dict(loop=12, events=16, monitor=3, ops=2), "C34": dict(shebang=1, ops=16, listed=12, tokens=4)}
PROXY = dict(base=8, adv=10)
POOLS = {"C28": dict(base=10, adv=2, admin=4), "C29": dict(base=14, admin=2), "C30": dict(adv=8, init=6, base=2, admin=2), "C31": dict(admin=14, adv=3, base=1)}


def plan(pid, tier, seed):
    mult = 1 if tier == "quick" else 12
    lines = 380 if tier == "quick" else 600
    hist = []
    if pid in MIX:
        for prof, w in MIX[pid].items():
            for i in range(w * mult):
                hist.append(("harness", "gen", prof, seed * 100000 + i, min(lines, SLOW.get(prof, lines)) if tier == "quick" else lines))
    if pid == "C27":
        for i in range(8 * mult):
            hist.append(("harness", "codec", "-", seed * 100000 + i, 6000))
    if pid == "C18":
        for i in range(8 * mult):
            hist.append(("harness", "create", "-", (seed * 1000 + i) * 100000, 6000))
    for prof, w in POOLS.get(pid, {}).items():
        for i in range(w * mult):
            hist.append(("poolharness", "pool", prof, seed * 100000 + i, 2500))
    if pid == "C32":
        for prof, w in PROXY.items():
            for i in range(w * mult):
                hist.append(("proxyharness", "proxy", prof, seed * 100000 + i, 1500))
    for prof, w in CRANK.get(pid, {}).items():
        for i in range(w * (mult if prof != "shebang" else 1)):
            hist.append(("crankharness", "crank", prof, seed * 100000 + i, 300))
    if pid == "C35":
        for i in range(8 * mult):
            hist.append(("guardharness", "guard", "-", seed * 100000 + i, 6000))
    # long ones first, so that the workers finish together
    hist.sort(key=lambda h: -SLOW.get(h[2], 0))
    return {"crates": sorted({h[0] for h in hist}), "histories": hist, "models": MODELS.get(pid, "").split(), "side": SIDE.get(pid, [])}


CLAIMED = sorted(list(MIX) + ["C18", "C27", "C28", "C29", "C30", "C31", "C32", "C33", "C34", "C35"])
NOT_CLAIMED = {}


def technique(pid):
    import about
    return about.technique(pid, ", ".join(MODELS.get(pid, "").split()), ", ".join(MIX.get(pid, {})))


def note(pid):
    import about
    return about.note(pid)
