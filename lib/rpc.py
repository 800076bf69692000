"""Profiles of the client-and-server specification."""
import random

ALL = (1, 2, 3, 4, 5, 6, 7, 9)


def cfg(depth, up, down, sw, n):
    return {"depth": depth, "up": up, "down": down, "sw": sw, "n": n}


def consts(cfgs, ops, kinds=ALL, spub=0, gate=0, cancel=0, stop=False, prio=2):
    return {"Cfgs": list(cfgs), "Kinds": set(kinds), "MaxOps": ops, "MaxSPub": spub, "MaxGate": gate, "MaxCancel": cancel,
            "Stops": stop, "Prio": prio}


ONE = [cfg(1, 1, 1, 1, 1)]
MIX = [cfg(d, u, w, s, n) for d, u, w in ((1, 1, 1), (1, 2, 1), (2, 1, 3), (3, 3, 2), (64, 2, 2), (64, 64, 64)) for s in (1, 2, 4) for n in (1, 2, 4, 8)]
TIGHT = [c for c in MIX if c["up"] < 3 and c["down"] < 3]
INV = ["RightAnswers", "CalledOnce", "OnePlace", "Drains", "InOrder", "QuiescentIsRight"]
MC = [  # quick, thorough, invariants, properties, specification
    (consts(ONE, 2, prio=0), consts(ONE, 3, (1, 2, 3, 4, 5, 6), prio=0), INV, ["Refines"], "Spec"),
    (consts(ONE, 2, (1, 2, 3), spub=1, gate=1, prio=0), consts(ONE, 3, (1, 2, 3), spub=1, gate=1, prio=0), INV, ["Refines"], "Spec"),
    (consts(ONE, 2, (1, 3, 6), cancel=1, stop=True, prio=0), consts(ONE, 3, (1, 3, 6), cancel=1, stop=True, prio=0), INV[:4] + INV[5:], [], "Spec"),
    (consts(ONE, 2, (1, 2, 3, 5), spub=1, prio=0), consts(ONE, 3, (1, 2, 3), prio=0), [], ["Finishes"], "Fair"),
]
GEN = [
    ("mixed", consts(MIX, 16, spub=4, gate=3, cancel=1), 34, 3),
    ("tight", consts(TIGHT, 18, (1, 2, 3, 4, 7), spub=3, gate=4), 36, 2),
    ("cancelled", consts(MIX, 14, (1, 2, 3, 7, 9), cancel=4, gate=2), 32, 1),
    ("stopped", consts(MIX, 8, spub=2, gate=1, stop=True), 24, 1),
    ("spawned", consts(TIGHT, 18, (2, 3, 6), gate=2), 36, 1),
]


def threads(n, seed):
    r = random.Random(seed)
    out = []
    for _ in range(n):
        callers = r.choice((2, 4, 8, 16))
        sw = r.choice((1, 2, 4))
        each = 240 // callers if sw == 1 else r.choice((40, 80, 400 // callers))
        out.append({"cfg": dict(cfg(r.choice((1, 2, 8, 64)), r.choice((1, 2, 16, 64)), r.choice((1, 2, 16, 64)), sw, r.choice((1, 2, 4, 8))),
                                seed=r.randrange(1 << 30), callers=callers, each=each, spubs=r.choice((0, 20)), threads=r.choice((2, 4, 8)),
                                kinds=r.choice(([1], [1, 7], [3], [1, 2, 3], [1, 2, 3, 4, 5, 6, 7, 9], [4, 5, 1], [3, 6, 7])))})
    return out


def run_threads(c, exe, n, what):
    t = c.replay(exe, "rpcmt", threads(n, c.seed * 7919 + n))
    c.validate("RpcAbsTrace", t, what)


def c21(c, total=1200):
    exe = c.build()
    for q, t, invs, prs, sp in MC:
        for k, lim in ((q, 800), (None if c.quick else t, 1200)):
            if k:
                c.mc("RpcMC", k, invs, prs, spec=sp, timeout=lim)
    w = sum(g[3] for g in GEN)
    total = total if c.quick else 20000
    for n, (name, k, ln, wt) in enumerate(GEN):
        s = c.generate("RpcGen", dict(k, ScriptLen=ln, Burst=3), total * wt // w, 14 * ln, seed_off=n)
        # all orders of steps are tried for a trace that does not fit the reduced exploration
        c.validate("RpcTrace", c.replay(exe, "rpc", s), f"client and server, {name}", consts={"Prio": 2}, fallback={"Prio": 1})
    run_threads(c, exe, 100 if c.quick else 1500, "client and server on several threads")
