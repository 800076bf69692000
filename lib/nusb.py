"""Profiles of the USB host transport specification (Nusb.tla)."""
import random


def ep(d, t="bulk", mps=64):
    return {"d": d, "t": t, "mps": mps}


def iface(cls, eps, claim=True, alt=9):
    return {"cls": cls, "eps": tuple(eps), "claim": claim, "alt": alt}


def good(mps, extra=0):
    e = [ep("in", mps=mps), ep("out", mps=mps)]
    if extra & 1:
        e.reverse()
    if extra & 2:
        e = [ep("in", "intr", 8), ep("out", "intr", 16)] + e
    if extra & 4:
        e = e + [ep("out", "iso", 32), ep("in", "intr", 8)]
    return iface(255, e, alt=(1 if extra & 8 else 9))


def dev(ifs, m=True, op=True, skip=0):
    """Interfaces are listed in the order of their numbers, which need not be contiguous (bits of skip: leave a gap)."""
    r, no = [], 0
    for k, i in enumerate(ifs):
        no += skip >> k & 1
        r.append(dict(i, no=no))
        no += 1
    return {"m": m, "open": op, "ifs": tuple(r)}


CDC = iface(2, [ep("in", "intr", 16)])
DATA = iface(10, [ep("in", mps=32), ep("out", mps=32)])
OTHER = dev([iface(255, [ep("in"), ep("out")])], m=False)


def cfg(devs, ctor="auto", want=255, lst=True):
    return {"devs": tuple(devs), "ctor": ctor, "want": want, "list": lst}


def traffic_cfgs():
    r = []
    for mps in (8, 16, 64, 512):
        for x in (0, 1, 6, 11):
            g = good(mps, x)
            r.append(cfg([dev([g])]))
            r.append(cfg([OTHER, dev([CDC, DATA, g]), dev([good(32)])]))
            r.append(cfg([OTHER, dev([CDC, g, DATA], skip=2)], "pick", 255))
            r.append(cfg([dev([CDC, DATA, g])], "dev", 3))
    return r


def connect_cfgs(n, seed):
    """Any mixture of devices, including ones that cannot be used."""
    rnd = random.Random(seed)
    eps = [ep("in"), ep("out"), ep("out", mps=512), ep("in", "intr"), ep("out", "intr", 16), ep("in", "iso"), ep("out", "iso")]

    def one_if():
        k = rnd.random()
        if k < .5:
            i = good(rnd.choice((8, 64, 512)), rnd.randrange(16))
        else:
            e = [x for x in rnd.sample(eps, rnd.randrange(5))]
            # at most one bulk endpoint of each direction
            seen, e2 = set(), []
            for x in e:
                if x["t"] == "bulk":
                    if x["d"] in seen:
                        continue
                    seen.add(x["d"])
                e2.append(x)
            i = iface(255, e2, alt=rnd.choice((1, 9)))
        i["cls"] = rnd.choice((255, 255, 3, 10))
        i["claim"] = rnd.random() < .85
        return i
    r = []
    for _ in range(n):
        devs = [dev([one_if() for _ in range(rnd.randrange(4))], rnd.random() < .6, rnd.random() < .9, rnd.choice((0, 0, 1, 2, 4, 5))) for _ in range(rnd.randrange(4))]
        ctor = rnd.choice(("auto", "pick", "dev"))
        want = {"auto": 255, "pick": rnd.choice((255, 3, 10)), "dev": rnd.choice((1, 2, 3, 4))}[ctor]
        r.append(cfg(devs, ctor, want, rnd.random() < .95))
    return r


TINY = {"MaxErrs": 1, "Cfgs": [cfg([dev([good(2)])]), cfg([dev([good(3, 1)])])], "Lens": {1, 2, 4, 6}, "MaxPub": 2, "MaxArr": 2, "MaxQ": 3}
MORE = dict(TINY, Lens={1, 2, 3, 4, 5, 6, 9}, MaxPub=2, MaxArr=3, MaxQ=5)
LENS = {13, 14, 16, 24, 32, 63, 64, 65, 128, 129, 320, 511, 512, 513, 1024, 1025, 4096}
INLENS = {13, 16, 63, 64, 65, 512, 1023, 1024}


def c23(c):
    exe = c.build("harness-nusb")
    c.mc("NusbMC", TINY if c.quick else MORE, ["DeviceSeesFrames", "ClosedForAReason", "FatalCloses", "InOrder", "NeverTooMany"],
         timeout=800 if c.quick else 1500)
    n = 1 if c.quick else 12
    base = {"MaxErrs": 10, "Lens": LENS, "InLens": INLENS}
    ways = [("traffic", "GSpec", traffic_cfgs(), 40, 22, 700 * n), ("long traffic", "GSpec", traffic_cfgs(), 90, 80, 200 * n),
            ("errors in a row", "RSpec", traffic_cfgs(), 60, 60, 250 * n),
            ("connecting", "GSpec", connect_cfgs(600 * (1 if c.quick else 3), c.seed), 8, 4, 900 * n)]
    for k, (name, sp, cfgs, ln, bias, num) in enumerate(ways):
        s = c.generate("NusbGen", dict(base, Cfgs=cfgs, ScriptLen=ln, ErrBias=bias), num, 3 * ln, spec=sp, seed_off=k)
        c.validate("NusbTrace", c.replay(exe, "nusb", s), f"client on a simulated USB bus, {name}", consts={"MaxErrs": 10})
