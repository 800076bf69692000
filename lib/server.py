"""Profiles of the Server specification."""
APPS = [{"app": a, "n": int(a[1])} for a in
        "a1 a2i a2o a2e a2to a2ti a4i a4o a4e a4to a4ti a8i a8o a8to a8ti a4x a4y a8x a8y".split()]
ALLK = (1, 2, 3, 4, 5, 6, 7, 8, 9)


def consts(acts, rx, plan=0, pub=0, run=0, keys=ALLK, ws=(1, 2, 4, 8), sws=(1, 2, 4), apps=APPS):
    return {"Acts": set(acts.split()), "Cfgs": list(apps), "MaxRx": rx, "MaxPlan": plan, "MaxPub": pub,
            "MaxRun": run, "Keys": set(keys), "Ws": set(ws), "SWs": set(sws)}


FEW = [APPS[0], APPS[1]]
GEN = {
    "C03": [
        ("plain", consts("good req bad garbage pub nospawn", 20, pub=3), 32, 3),
        ("replyfail", consts("good bad plan nospawn pub", 16, plan=6, pub=2), 30, 1),
        ("spawned", consts("good plan pub nospawn", 18, plan=2, pub=3, keys=(2, 3, 5, 6, 7)), 34, 1),
    ],
    "C04": [
        ("stops", consts("good bad garbage rxerr rxclosed planf plan", 18, plan=4, run=6), 30, 2),
        ("nonfatal", consts("good bad garbage rxerr plan", 22, plan=10, keys=(1, 2, 3, 7, 9)), 32, 1),
        ("abort", consts("good req abort rxclosed planf pub", 16, plan=3, run=6, pub=2), 30, 1),
    ],
}
MC = {
    "C03": [(consts("req bad plan nospawn", 2, plan=2, ws=(1, 2), sws=(1,), apps=FEW),
             consts("req bad plan nospawn garbage", 3, plan=2, keys=(1, 2, 3, 6, 7, 9), ws=(1, 2), sws=(1,), apps=FEW),
             ["OneAnswerI", "CalledOnce", "CalledInOrderI", "AllAnsweredI", "QuiescentIsRight"], [])],
    "C04": [(consts("req plan planf rxerr rxclosed abort", 3, plan=2, run=1, keys=(1, 2, 3), ws=(2,), sws=(1,), apps=FEW[1:]),
             consts("req plan planf rxerr rxclosed abort garbage", 3, plan=3, run=2, keys=(1, 2, 3, 5), ws=(2,), sws=(1,), apps=FEW[1:]),
             ["QuiescentIsRight"], ["OnlyFatalStops", "FatalStops"])],
}


def run(c, pid, quick_total=1600, thorough_total=24000):
    exe = c.build()
    for q, t, invs, prs in MC[pid]:
        for k, lim in ((q, 800), (None if c.quick else t, 1200)):
            if k:
                c.mc("ServerMC", k, invs, prs, timeout=lim)
    w = sum(x[3] for x in GEN[pid])
    total = quick_total if c.quick else thorough_total
    for n, (name, k, ln, wt) in enumerate(GEN[pid]):
        scripts = c.generate("ServerGen", dict(k, ScriptLen=ln), total * wt // w, 12 * ln, seed_off=n)
        traces = c.replay(exe, "server", scripts)
        c.validate("ServerTrace", traces, f"server profile {name}")
