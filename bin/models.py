"""Bounded configurations of spec/MC.tla."""
DEFAULT = dict(NSlots=3, Ops=["new", "crank"], NUsers=2, Prices=[1, 2], Qtys=[1, 2], Types=["limit"], Stbs=["dec"], Lims=[5],
               Buds=["exact"], Cids=[1], MaxTsOf=["none"], Cap=3, EqCap=12, Perm=0, Steps=3)

MODELS = {
    # matching: every order type, partial fills, limits
    "match": dict(Types=["limit", "ioc", "post"], Lims=[0, 1, 5], Ops=["new", "crank", "settle"]),
    # budgets of bids against fees
    "budget": dict(Types=["limit", "ioc"], Buds=["exact", "short"], Ops=["new"]),
    # self trades
    "self": dict(NUsers=2, Types=["limit", "ioc"], Stbs=["dec", "cxl", "abort"]),
    "selflim": dict(NUsers=1, Types=["limit", "ioc"], Stbs=["dec", "cxl"], Lims=[0, 1, 5], Buds=["exact", "rich"]),
    # swaps
    "take": dict(Ops=["new", "take", "crank"], Lims=[1, 5], Buds=["exact", "short"]),
    # accounts open, trade, settle, close, are recreated
    "life": dict(Ops=["initoo", "close", "recreate", "new", "settle", "crank", "sweep"], Prices=[1], Qtys=[1], Types=["ioc", "limit"], Steps=5),
    "cancel": dict(Ops=["new", "cancel", "cancelc", "cancelb", "crank"], Prices=[1, 2], Qtys=[1], Cids=[0, 1, 2], Steps=3),
    "cancel2": dict(Ops=["new", "cancel", "cancelb", "consume"], Prices=[1], Qtys=[1, 2], Cids=[1, 2], NUsers=1, Steps=5),
    "replace": dict(Ops=["new", "replace", "replace2", "crank"], Qtys=[1], Types=["limit", "post"], Cids=[1, 2]),
    "crank": dict(Ops=["new", "consume", "settle"], Prices=[1], Qtys=[1, 2], Types=["limit", "ioc"], Steps=4),
    "perm1": dict(Ops=["initoo", "new", "consume", "consumep", "close", "prune"], Perm=1, Prices=[1], Qtys=[1], Steps=6),
    "perm2": dict(Ops=["initoo", "new", "crank", "prune", "close", "cancel"], Perm=2, Prices=[1, 2], Qtys=[1], Steps=6),
    "perm3": dict(Ops=["initoo", "new", "consume", "consumep", "prune", "settle"], Perm=3, Prices=[1], Qtys=[1], Steps=7),
    "dis": dict(Ops=["new", "disable", "cancel", "cancelb", "settle", "crank", "close", "take", "replace", "sweep", "initoo"], Prices=[1], Qtys=[1], Steps=4),
    "expiry": dict(Ops=["new", "replace"], MaxTsOf=["none", "now", "past"], Types=["limit", "ioc"], Cids=[1], Qtys=[1], Steps=3),
    # tiny capacities: eviction, full queue, full accounts
    "tiny": dict(Cap=2, EqCap=5, NSlots=2, Types=["limit"], Ops=["new", "consume", "cancel"], Qtys=[1], Prices=[1, 2, 3], Steps=4),
}
# deeper versions for the thorough tier
THOROUGH = {
    "match": dict(Steps=4, Lims=[1, 5]), "budget": dict(Lims=[1, 5]), "self": dict(Steps=4, Qtys=[1, 2], Types=["limit"]), "selflim": dict(Steps=4, Lims=[1, 5], Buds=["exact"]),
    "take": dict(Steps=4, Buds=["exact"]), "life": dict(Steps=7), "cancel": dict(Steps=4), "cancel2": dict(Steps=6),
    "replace": dict(Steps=4, Types=["limit"]), "crank": dict(Steps=5), "perm1": dict(Steps=9), "perm2": dict(Steps=7), "perm3": dict(Steps=9), "dis": dict(Steps=5),
    "expiry": dict(Steps=4), "tiny": dict(Steps=5),
}
INVARIANTS = {
    "C01": ["Inv01"], "C02": ["Inv02"], "C06": ["Inv06"], "C10": ["Inv10"], "C19": ["Inv19"], "C20": ["Inv20"],
    "C24": ["Inv24", "InvRebates", "InvSlots"], "C08": ["InvRebates"], "C11": ["Inv20", "InvSlots"],
}


def val(v):
    if isinstance(v, list):
        return "{" + ", ".join(val(x) for x in v) + "}"
    if isinstance(v, str):
        return '"%s"' % v
    return str(v)


def cfg(name, pid, tier, emit):
    c = dict(DEFAULT)
    c.update(MODELS[name])
    if tier == "thorough":
        c.update(THOROUGH.get(name, {}))
    out = ["SPECIFICATION Spec", "VIEW View", "CHECK_DEADLOCK FALSE", "CONSTANTS",
           "  S <- MCS", "  FPOne <- MCFPOne", "  FeeDen <- MCFeeDen", "  FeeK <- MCFeeK", "  SrmSteps <- MCSrmSteps",
           "  TierMsrm = 6", "  TierStable = 7", "  Emitting = " + ("TRUE" if emit else "FALSE"), '  Wanted = {%s}' % ", ".join('"%s"' % p for p in pid.split(","))]
    out += ["  %s = %s" % (k, val(v)) for k, v in c.items()]
    inv = [i for p in pid.split(",") for i in INVARIANTS.get(p, [])]
    if inv:
        out.append("INVARIANTS " + " ".join(sorted(set(inv))))
    return "\n".join(out) + "\n"


def depth(name, tier):
    c = dict(DEFAULT)
    c.update(MODELS[name])
    if tier == "thorough":
        c.update(THOROUGH.get(name, {}))
    return c["Steps"]
