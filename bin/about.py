"""What decides each property (MANIFEST technique / level_note)."""
HOW = {
 "C01": "vault = deposits + fees + rebates (+ donations), deposits = account totals adjusted by queued fills, and token conservation, evaluated in every state",
 "C02": "total - free = value of resting orders + pending events, per account, evaluated in every state",
 "C03": "two oracles: a direct statement over the book before/after and the queued fills (Rules!PriceTime), and equality with the fills Dex!Apply specifies",
 "C04": "direct statement of price, quantity, quote and match limits and of exact payment (Rules!WithinLimits) on every order and swap; replacements against Dex!Apply",
 "C05": "the order's rest, refund and pull must equal Dex!Apply's, including refusals",
 "C06": "book order, positivity, uncrossedness and slab structure in every state; book after every step equal to Dex!Apply's, eviction included",
 "C07": "no own maker fill; self-trade outcome equal to Dex!Apply's for each of the three behaviours",
 "C08": "fee formulae (Fees.tla, 128-bit fixed point over unbounded integers) against the program's fee functions for sampled and extremal amounts, and on every trade of every history",
 "C09": "tier of every event and resting order equal to the tier the presented discount account earns; foreign discount accounts refused",
 "C10": "ring arithmetic, FIFO and sequence numbers on every step; instructions that do not fit must be refused and leave no trace",
 "C11": "the crank's effect must equal Dex!Consume, which applies a prefix of the queue",
 "C12": "cancel outcomes and effects equal to Dex!Apply's",
 "C13": "settlement effects equal to Dex!Apply's; refused/accepted alike",
 "C14": "every instruction is also issued without, and with other, signers: the specification says which must be refused",
 "C15": "every account of every instruction is also replaced by look-alikes; Rules!Isolated limits what any step may touch",
 "C16": "authorities of permissioned markets, present, missing or wrong, against Dex!Apply",
 "C17": "every instruction on disabled markets against Dex!Apply",
 "C19": "slot accounting and lifecycle of trading accounts against Dex!Apply",
 "C20": "id ranks, slot mapping of orders and events, blank free slots in every state",
 "C21": "replacement must equal Dex's cancel-then-place fold, or be refused without effect",
 "C22": "swap must equal Dex!SendTake, or be refused without effect",
 "C23": "sweep must move exactly the accrued fees; no other step moves them",
 "C24": "every history ends with a full drain performed on the real program whose end state must be empty; on the model the same drain is evaluated from every reachable state",
 "C25": "the pruned set must be legal (own orders, within the limit, all if the limit covers both trees) and its effect that of cancels",
 "C26": "orders around, at and past their expiry against Dex!Apply",
}
LIMIT = ("Exhaustive over the bounded models (small prices, quantities, 2 traders, 3-7 steps); on the real program it decides the histories explored, not all. "
         "Trusts the in-process mini-runtime and the harness's account decoder.")


def technique(pid, models, mix):
    if pid in HOW:
        return ("TLA+ specification spec/Dex.tla (Rules.tla, Fees.tla) model-checked with TLC (" + models + "); model histories replayed on, and generated "
                "histories (" + mix + ") recorded from, the real program are judged step by step by TLC (Trace.tla): " + HOW[pid])
    return {
     "C18": "TLA+ specification of market creation (Create.tla) model-checked with TLC (CreateMC); model histories and generated creations with every account altered run on the real program and judged by TLC (CreateTrace)",
     "C27": "TLA+ specification of the wire format (Codec.tla); TLC enumerates byte strings around every instruction form (CodecMC); these and mutated/random encodings, and every client builder, run on the real code and judged by TLC (CodecTrace)",
     "C32": "TLA+ specification of the proxy (Proxy.tla) model-checked with TLC (ProxyMC); model histories and generated ones, with every account, signer and byte altered, run through the real MarketProxy over the real exchange and token program and judged by TLC (ProxyTrace)",
     "C33": "TLA+ specification of the crank (CrankMC.tla) over the exchange's own model, its liveness checked with TLC; its histories and generated ones (queues of many owners, wrapped rings, arrivals while it runs) are cranked by the real client against a loopback cluster that executes whole transactions on the real program, and every transaction, step and queue length is judged by TLC (CrankTrace)",
     "C34": "TLA+ specification of each client operation as a history of exchange steps (CrankTrace.tla over Dex.tla): the real client runs against a loopback cluster executing whole transactions on the real program, and every operation's transactions, effects, payments and refusals are judged by TLC",
     "C35": "TLA+ specification of owner-guarded payments (Guard.tla) model-checked with TLC (GuardMC); model histories and generated ones run through the real program's entrypoint and judged by TLC (GuardTrace)",
    }.get(pid, "TLA+ specification of pools (Pool.tla) model-checked with TLC (PoolMC); model histories and generated ones, with every account, signer and byte altered, run on the real pool program over the real token program and judged by TLC (PoolTrace)")


def note(pid):
    return LIMIT
