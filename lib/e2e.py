"""Profiles of the specification of the USB link from client to device."""


def link(cfgs, calls, cred, ns=(4, 20, 60, 300, 900, 1800), ms=(0, 1, 30, 200, 900), ks=(1, 2, 3, 17, 40), nr=(-1, 0, 1), np=(1, 2, 3, 8, 15, 16), st=0):
    return {"Cfgs": cfgs, "Ns": set(ns), "Ms": set(ms), "Ks": set(ks), "NearR": set(nr), "NearP": set(np), "MaxCalls": calls,
            "MaxCred": cred, "MaxStall": st}


def lc(kws=(1, 2, 4, 8), eps=(0, 1, 2, 3), vs=(3, 4)):
    return [{"v": v, "kw": k, "ep": e} for v in vs for k in kws for e in eps]


LINK_GEN = [
    ("one after another", link(lc(), 12, 600, ks=(20, 40)), 40, 2),
    ("packet by packet", link(lc(), 8, 200, np=(1, 2), ns=(4, 20, 60), ms=(0, 1, 30, 53, 60), ks=(1, 2)), 60, 2),
    ("many at once", link(lc(), 20, 600, ks=(1, 5, 60)), 50, 2),
    ("stalls", link(lc(), 12, 400, ks=(1, 5, 30), st=2), 50, 1),
]
LINK_MC = (link(lc((1, 8), (0,), (4,)), 2, 6, ns=(4,), ms=(1,), ks=(1, 2), np=(1,), st=1),
           link(lc((1, 8), (0,), (4,)), 3, 8, ns=(4,), ms=(1,), ks=(1, 3), nr=(0, 1), np=(1,), st=0))
LINK_INV = ["OnceEach", "OneAtATime", "NothingLost", "NoSpareReplies", "FitsTransfer", "QuiescentIsRight"]


def c27(c):
    exe = c.build("harness-e2e")
    c.mc("LinkMC", LINK_MC[0] if c.quick else LINK_MC[1], LINK_INV, ["Grows"], timeout=800 if c.quick else 1500)
    total, w = (800 if c.quick else 12000), sum(g[3] for g in LINK_GEN)
    for n, (name, k, ln, wt) in enumerate(LINK_GEN):
        s = c.generate("LinkGen", dict(k, ScriptLen=ln), total * wt // w, 10 * ln, seed_off=n)
        c.validate("LinkTrace", c.replay(exe, "e2e", s), f"usb link, profile {name}")
