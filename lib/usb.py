"""Profiles of the USB device transport specifications."""


def tcfg(bufs, autos=(False,), vs=(3, 4)):
    return [{"v": v, "buf": b, "auto": a} for v in vs for b in bufs for a in autos]


def tx(acts, ops, cfgs, kinds=("send", "raw", "str", "fmt"), lens=(1, 12, 63, 64, 65, 127, 128, 129, 192, 200), ticks=(1, 2, 5),
       nt=8, nd=2):
    return {"Cfgs": cfgs, "Kinds": set(kinds), "Lens": set(lens), "Ticks": set(ticks), "MaxOps": ops, "MaxTicks": nt,
            "MaxDis": nd, "Acts": set(acts.split())}


TX_GEN = [
    ("senders", tx("edge", 6, tcfg((128, 200, 256))), 40, 2),
    ("timeouts", tx("edge tmo slow", 6, tcfg((256,)), nt=14), 44, 2),
    ("given up", tx("drop slow edge", 7, tcfg((192,))), 40, 2),
    ("disconnections", tx("dis drop slow tmo", 7, tcfg((256,)), nd=4), 44, 2),
    ("fast host", tx("edge dis", 10, tcfg((64, 100, 300, 1024), (True,)),
                     lens=(3, 7, 63, 64, 65, 66, 128, 191, 192, 193, 320, 512, 1000), nd=3), 30, 1),
]
TX_MC = (tx("drop slow dis", 2, tcfg((70,), vs=(4,)), kinds=("raw",), lens=(64, 65), ticks=(2,), nt=2, nd=1),
         tx("drop slow dis tmo", 2, tcfg((70,)), kinds=("raw",), lens=(0, 64, 65), ticks=(2,), nt=2, nd=1))
TX_INV = ["NeverGlued", "OnePieceEach", "HostHasThem", "SmallPackets", "TooLargeSilent", "OneAtATime", "QuiescentIsRight"]


def c15(c):
    exe = c.build("harness-usb")
    c.mc("UsbTxMC", TX_MC[0] if c.quick else TX_MC[1], TX_INV, timeout=800 if c.quick else 1500)
    total, w = (1600 if c.quick else 20000), sum(g[3] for g in TX_GEN)
    for n, (name, k, ln, wt) in enumerate(TX_GEN):
        s = c.generate("UsbTxGen", dict(k, ScriptLen=ln), total * wt // w, 10 * ln, seed_off=n)
        c.validate("UsbTxTrace", c.replay(exe, "usbtx", s), f"usb transmitter, profile {name}")


TMO_GEN = [
    ("alone", tx("tmo dead slow", 8, tcfg((256, 1024)), lens=(1, 12, 64, 65, 128, 200, 640, 1000), nt=20), 50, 2),
    ("waiting", tx("tmo dead slow drop edge", 10, tcfg((256,)), nt=20), 50, 2),
    ("coming and going", tx("tmo dead slow dis", 8, tcfg((200,)), nt=16, nd=3), 44, 1),
]
TMO_MC = (tx("tmo dead", 2, tcfg((70,), vs=(4,)), kinds=("raw",), lens=(64, 65), ticks=(1,), nt=2, nd=0),
          tx("tmo dead slow drop", 2, tcfg((70,), vs=(4,)), kinds=("raw",), lens=(1, 64, 65), ticks=(1,), nt=3, nd=0))


def c26(c):
    exe = c.build("harness-usb")
    c.mc("UsbTxMC", TMO_MC[0] if c.quick else TMO_MC[1], ["OverdueEnds", "TmoInRange", "QuiescentIsRight"], ["TimeoutNotEarly", "DeadlineFixed"],
         timeout=800 if c.quick else 1500)
    total, w = (1200 if c.quick else 16000), sum(g[3] for g in TMO_GEN)
    for n, (name, k, ln, wt) in enumerate(TMO_GEN):
        s = c.generate("UsbTxGen", dict(k, ScriptLen=ln), total * wt // w, 10 * ln, seed_off=n)
        c.validate("UsbTxTrace", c.replay(exe, "usbtx", s), f"usb time-outs, profile {name}")


def rcfg(bufs, vs=(3, 4)):
    return [{"v": v, "buf": b, "keep": k} for v in vs for b in bufs for k in (False, True)]


def rx(cfgs, lens, frames, nd, rel=(-65, -64, -63, -1, 0, 1, 2, 63, 64, 65, 128, 200)):
    return {"Cfgs": cfgs, "Lens": set(lens), "MaxFrames": frames, "MaxDis": nd, "Rel": set(rel)}


RX_BUFS = (64, 128, 192, 256, 70, 100, 127, 129, 200, 63, 20, 1)
RX_GEN = [
    ("multiples of a packet", rx(rcfg((64, 128, 256)), (0, 1, 9, 63, 64, 65, 128), 12, 0), 44, 2),
    ("other buffers", rx(rcfg((63, 65, 100, 127, 129, 200)), (0, 1, 9, 63, 64, 65, 128), 12, 0), 44, 2),
    ("tiny buffers", rx(rcfg((0, 1, 5, 20, 33)), (0, 1, 4, 5, 6, 20, 21, 63, 64, 65), 14, 0), 40, 1),
    ("disconnections", rx(rcfg((64, 100, 128, 192)), (0, 5, 63, 64, 70, 128, 130), 14, 4), 44, 2),
]
RX_MC = (rx([{"v": 4, "buf": 64, "keep": False}, {"v": 4, "buf": 100, "keep": False}], (0, 5, 64), 3, 1, rel=(-1, 0, 1, 64)),
         rx([{"v": 4, "buf": b, "keep": False} for b in (20, 64, 100)], (0, 5, 64), 3, 2, rel=(-1, 0, 1, 64)))


def c16(c):
    exe = c.build("harness-usb")
    c.mc("UsbRxMC", RX_MC[0] if c.quick else RX_MC[1], ["Intact", "InTurn", "AllThere", "QuiescentIsRight"], ["OnlyClosedWhenGone"],
         timeout=800 if c.quick else 1500)
    total, w = (2000 if c.quick else 30000), sum(g[3] for g in RX_GEN)
    for n, (name, k, ln, wt) in enumerate(RX_GEN):
        s = c.generate("UsbRxGen", dict(k, ScriptLen=ln), total * wt // w, 10 * ln, seed_off=n)
        c.validate("UsbRxTrace", c.replay(exe, "usbrx", s), f"usb receiver, profile {name}")


PATS = [(1,), (2,), (3,), (4,), (1, 2, 3, 4), (1, 1, 4), (1, 1, 1, 3)]


def log(cfgs, kinds, ops, nd=0, ns=(0, 1, 2, 20, 127, 128), manys=(), rel=(-9, -5, -4, -3, -2, -1, 0, 1, 2, 3, 5, 40), ws=(1, 2, 4, 8), pats=PATS):
    return {"Cfgs": cfgs, "Kinds": set(kinds.split()), "Ws": set(ws), "Ns": set(ns), "Pats": set(pats), "MaxOps": ops, "MaxDis": nd,
            "Manys": set(manys), "Rel": set(rel)}


def lcfg(bufs, vs=(3, 4), wrap=65536):
    return [{"v": v, "buf": b, "wrap": wrap} for v in vs for b in bufs]


HUGE = 1 << 24
LOG_GEN = [
    ("small buffers", log(lcfg((20, 32, 40, 64, 70, 100, 127)), "str fmt send", 40, 2), 40, 2),
    ("buffers around 128 bytes", log(lcfg(tuple(range(128, 146)) + (200, 255, 256, 260, 300)), "str fmt send", 40, 1,
                                     ns=(0, 1, 120, 126, 127, 128, 129)), 40, 3),
    ("large buffers", log(lcfg((1024, 16383, 16390, 16395, 16400, 20000)), "str fmt send", 18, 1, ns=(0, 126, 127, 128, 16370, 16383, 16384)), 18, 1),
    ("tiny buffers", log(lcfg(tuple(range(0, 20))), "str fmt send", 30, 0, ns=(0, 1, 2, 3, 4, 5, 6, 7, 8)), 30, 1),
    ("wrap", log(lcfg((64,)), "str fmt many", 14, 1, ns=(0, 1, 5), rel=(0, 1), manys=(3, 60000, 65530, 65535)), 14, 0.2),
]
LOG_STD = ("the channel transport", log(lcfg((HUGE,), (0,), 1 << 30), "str fmt", 30, 0, ns=(0, 1, 5, 126, 127, 128, 129, 1000, 16383, 16384), rel=()), 30, 0.5)
LOG_MC = (log(lcfg((6, 9, 12), (4,), 4), "str fmt send many", 2, 1, ns=(0, 3), manys=(3,), rel=(-3, 0, 2), ws=(1, 2), pats=[(1,), (1, 3)]),
          log(lcfg((4, 6, 9, 12), (4,), 4), "str fmt send many", 3, 1, ns=(0, 3), manys=(3,), rel=(-2, 0, 2), ws=(1,), pats=[(1,), (1, 3)]))


def c18(c):
    exe = c.build("harness-usb")
    exe0 = c.build("harness")
    c.mc("LogMC", LOG_MC[0] if c.quick else LOG_MC[1], ["NeverStuck", "FitsBuffer", "NotCutForNothing", "FirstIsZero", "Consecutive"],
         timeout=800 if c.quick else 1500)
    total, w = (1400 if c.quick else 16000), sum(g[3] for g in LOG_GEN) + LOG_STD[3]
    for n, (name, k, ln, wt) in enumerate(LOG_GEN + [LOG_STD]):
        s = c.generate("LogGen", dict(k, ScriptLen=ln), int(total * wt / w), 10 * ln, seed_off=n)
        std = name == LOG_STD[0]
        c.validate("LogTrace", c.replay(exe0 if std else exe, "log", s), f"device logging, {name}")
