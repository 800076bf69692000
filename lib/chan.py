"""Profiles of the channel transport specification (Chan.tla)."""


def cfg(mode, cap, st, buf=16):
    return {"mode": mode, "cap": cap, "buf": buf, "st": st}


def k(cfgs, lens, ops, push, kinds=("msg", "raw", "logs", "logf")):
    return {"Cfgs": list(cfgs), "Lens": set(lens), "Kinds": set(kinds), "MaxOps": ops, "MaxPush": push}


STS = ("none", "rx", "tx", "both")
W = [cfg("wire", c, st, b) for c in (1, 2, 5) for st in STS for b in (16, 200)]
S = [cfg("server", c, st, b) for c in (1, 2, 5) for st in ("none", "both") for b in (16, 200)]
INV = ["ReceivedInOrder", "SentOnce", "Bounded", "Replies", "ClosedForACause"]


def c25(c):
    exe = c.build()
    n = 0 if c.quick else 1
    c.mc("ChanMC", k([cfg("wire", 1, "both"), cfg("wire", 2, "rx")], (3, 20), 3 + n, 2, ("msg",)), INV, ["EndIsFinal"], spec="MSpec")
    c.mc("ChanMC", k([cfg("server", 1, "both"), cfg("server", 2, "none")], (11, 20), 0, 3 + n), INV, ["EndIsFinal", "StopEndsAll"], spec="MSpec")
    tot = 1500 if c.quick else 20000
    for i, (name, kk, ln, w) in enumerate([
            ("wire", k(W, (0, 1, 15, 16, 17, 199, 200, 201), 14, 14), 34, 3),
            ("server", k(S, (11, 15, 16, 17, 40, 199, 200, 201), 0, 20), 34, 2)]):
        s = c.generate("ChanGen", dict(kk, ScriptLen=ln), tot * w // 5, 10 * ln, seed_off=i)
        c.validate("ChanTrace", c.replay(exe, "chan", s), f"channel transport, {name}")
