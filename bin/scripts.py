"""TLC's SCRIPT lines (histories of MC.tla) -> the harness's script text."""
import json, re

LINE = re.compile(r'<<"SCRIPT", (".*?(?<!\\)")>>', re.S)


def order(o):
    return "%s %d %d %s %s %d %s %d %s" % (o["s"], o["px"], o["qty"], o["ty"], o["stb"], o["lim"], o["bud"], o["cid"], o["ts"])


def step(r):
    op = r["op"]
    if op == "new":
        return "new %d %s" % (r["u"], order(r))
    if op == "take":
        return "take %d %s %d" % (r["u"], order(r), r["min"])
    if op == "replace":
        return "replace %d %d %s" % (r["u"], len(r["os"]), " ".join(order(o) for o in r["os"]))
    if op == "cancel":
        return "cancel %d %d" % (r["u"], r["n"])
    if op == "cancelc":
        return "cancelc %d %d" % (r["u"], r["cid"])
    if op == "cancelb":
        return "cancelb %d %s" % (r["u"], ",".join(map(str, r["cids"])))
    if op == "settle":
        return "settle %d %s" % (r["u"], "true" if r["ref"] else "false")
    if op == "consume":
        return "consume %d %s" % (min(r["lim"], 65535), ",".join(map(str, r["us"])))
    if op == "consumep":
        return "consumep %d %s %s" % (min(r["lim"], 65535), ",".join(map(str, r["us"])), r["au"])
    if op in ("sweep", "disable"):
        return op
    if op in ("close", "recreate"):
        return "%s %d" % (op, r["u"])
    if op == "initoo":
        return "initoo %d %s" % (r["u"], r["au"])
    if op == "prune":
        return "prune %d %d" % (r["u"], r["lim"])
    raise ValueError(op)


def parse(out):
    for m in LINE.finditer(out):
        yield " ; ".join(step(r) for r in json.loads(json.loads(m.group(1))))
