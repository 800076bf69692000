"""Profiles of the HostClient specification: which environment each property is exercised in."""
import rpc


def cfg(depth=1, tmo=0, sw=4, auto=True, unit=10, bcap=2):
    return {"depth": depth, "tmo": tmo, "sw": sw, "auto": auto, "unit": unit, "bcap": bcap}


def consts(acts, cfgs, ops, rx, handles=1, seqs=(0,), rxw=(8,), depths=(1,), top=(1,)):
    return {"Acts": set(acts.split()), "MaxOps": ops, "MaxRx": rx, "MaxHandles": handles, "Cfgs": list(cfgs),
            "Seqs": set(seqs), "RxW": set(rxw), "Depths": set(depths), "Top": set(top)}


ALLW = (1, 2, 4, 8)
AUTO1, AUTO3 = cfg(1), cfg(3)
GATE1, GATE2 = cfg(1, auto=False), cfg(2, auto=False)

# property -> list of (name, consts for generation, script length, weight)
GEN = {
    "C01": [
        ("calls", consts("call raw cancel rxmatch rxerror rxstray rxbad", [AUTO3, cfg(2, sw=2)], 12, 24, seqs=(0, 1, 2), rxw=ALLW), 28, 3),
        ("gated", consts("call raw cancel rxmatch rxerror rxstray", [GATE1, GATE2], 10, 20, seqs=(0, 1), rxw=(1, 8)), 28, 1),
        ("mixed", consts("call cancel clone drop1 pub rxmatch rxstray subx subb rxtopic recv garbage", [AUTO3, cfg(1, sw=1)], 14, 24, handles=3, seqs=(0, 1), rxw=ALLW, depths=(2,), top=(1, 2)), 32, 1),
    ],
    "C02": [
        ("close", consts("call pub wait clone drop1 close subx subl subb recv rxmatch rxtopic cancel", [AUTO1, GATE1, cfg(2, tmo=1)], 12, 10, handles=2, rxw=(4, 8), depths=(1, 2), top=(1, 2)), 22, 2),
        ("rxerr", consts("call pub wait clone drop1 wireerr subx subb recv rxmatch rxtopic", [AUTO1, GATE1, cfg(1, tmo=2)], 12, 10, handles=2, depths=(1, 2), top=(1,)), 22, 1),
        ("txerr", consts("call pub wait clone drop1 txerr subx subb recv rxmatch rxtopic", [AUTO1, GATE1, GATE2], 12, 10, handles=2, depths=(1, 2), top=(1,)), 22, 1),
        ("drop", consts("call pub wait clone drop cancel subx subb recv rxmatch rxtopic", [AUTO1, GATE1, GATE2], 10, 10, handles=3, depths=(1, 2), top=(1,)), 22, 2),
        ("all", consts("call raw pub wait clone drop close txerr wireerr cancel subx subl subb recv dropsub rxmatch rxtopic garbage", [AUTO1, GATE1, cfg(2, tmo=1)], 12, 12, handles=3, depths=(1, 2), top=(1, 2)), 26, 1),
    ],
    "C08": [
        ("keylen", consts("call raw cancel rxmatch rxerror rxbad rxstray pub", [AUTO3, cfg(2, sw=2)], 14, 22, seqs=(0, 1), rxw=ALLW, top=(1, 2)), 30, 2),
        ("keysubs", consts("call pub cancel rxmatch rxtopic rxtopicbad subx subb recv dropsub garbage rxerror", [AUTO3, GATE2], 14, 22, rxw=ALLW, depths=(2,), top=(1, 2)), 30, 1),
    ],
    "C09": [
        ("owner", consts("subx subl recv dropsub rxtopic", [AUTO1], 14, 16, rxw=(1, 8), depths=(1, 2), top=(1, 2)), 26, 3),
        ("ownerb", consts("subx subl subb recv dropsub rxtopic", [AUTO1, cfg(1, tmo=1)], 16, 16, rxw=(1, 8), depths=(1, 2), top=(1, 2)), 28, 2),
    ],
    "C10": [
        ("drop0", consts("subx subl recv dropsub rxtopic rxtopicbad", [AUTO1], 14, 18, rxw=(1, 8), depths=(1, 2, 3), top=(1, 2)), 30, 2),
        ("wait", consts("subx recv dropsub rxtopic rxtopicbad tick", [cfg(1, tmo=1), cfg(1, tmo=2)], 14, 18, rxw=(1, 8), depths=(1, 2), top=(1, 2)), 30, 2),
        ("long", consts("subx recv rxtopic tick", [cfg(1, tmo=2, unit=2), cfg(1, tmo=2, unit=400), cfg(1, tmo=3, unit=30000), cfg(1, tmo=2, unit=7200000)], 10, 14, depths=(1, 2)), 26, 2),
        ("deep", consts("subx subl recv rxtopic", [AUTO1], 16, 40, rxw=(1, 8), depths=(5, 8, 17)), 54, 1),
        ("fill", consts("subx subl recv fill few", [AUTO1], 150, 130, rxw=(1, 8), depths=(40, 64, 100)), 260, 0),
        ("mix", consts("subx subl subb recv dropsub rxtopic rxtopicbad tick call rxmatch rxstray garbage", [AUTO1, cfg(2, tmo=1)], 16, 20, rxw=(2, 8), depths=(1, 2), top=(1, 2)), 30, 1),
    ],
    "C11": [
        ("bcast", consts("subb recv dropsub rxtopic rxtopicbad", [AUTO1], 18, 22, rxw=(1, 8), top=(1, 2)), 36, 3),
        ("bdeep", consts("subb recv dropsub rxtopic", [cfg(1, bcap=1), cfg(1, bcap=4), cfg(1, bcap=8)], 24, 48, top=(1, 2)), 64, 1),
        ("bfill", consts("subb recv fill few", [cfg(1, bcap=64), cfg(1, bcap=32)], 150, 130, top=(1,)), 260, 0),
        ("bsize", consts("subb2 recv dropsub rxtopic", [AUTO1], 26, 40, depths=(1, 2, 4, 8)), 60, 1),
        ("bmix", consts("subb subx recv dropsub rxtopic tick call rxmatch", [AUTO1, cfg(1, tmo=1)], 18, 20, rxw=(1, 8), depths=(1,), top=(1,)), 36, 1),
    ],
    "C12": [
        ("sendg", consts("call raw pub cancel clone", [GATE1, GATE2, cfg(3, auto=False)], 14, 4, handles=2, seqs=(5, 6, 7), top=(1, 2)), 30, 3),
        ("sendd", consts("call pub cancel", [cfg(5, auto=False), cfg(9, auto=False)], 30, 4, top=(1, 2)), 40, 1),
        ("senda", consts("call pub cancel clone drop1 rxmatch txerr", [AUTO1, AUTO3, cfg(2, sw=1), cfg(2, sw=2)], 14, 8, handles=2, rxw=ALLW, top=(1, 2)), 26, 1),
        ("sende", consts("call pub cancel close txerr drop clone", [GATE1, GATE2], 14, 4, handles=2, top=(1, 2)), 26, 1),
    ],
    "C19": [
        ("wrap1", consts("call raw rxmatch cancel loop", [cfg(2, sw=1)], 16, 12, seqs=(0, 1), rxw=(1, 8)), 24, 1),
        ("wrap2", consts("call raw rxmatch cancel loop", [cfg(2, sw=2), cfg(2, sw=4)], 12, 8, seqs=(0, 1), rxw=(8,)), 18, 0),
        ("width", consts("call raw pub cancel rxmatch rxstray", [cfg(2, sw=1), cfg(2, sw=2), cfg(2, sw=4)], 14, 18, seqs=(0, 3, 255, 256, 258, 65536, 65541), rxw=(1, 8), top=(1, 2)), 30, 3),
    ],
    "C20": [
        ("dup", consts("call raw cancel rxmatch rxstray rxerror", [AUTO3, GATE2, cfg(2, sw=1)], 14, 18, seqs=(0, 1), rxw=(1, 8)), 28, 3),
        ("dup1", consts("raw cancel rxmatch rxstray", [AUTO1, GATE1], 14, 18, seqs=(3,), rxw=ALLW), 28, 1),
    ],
    "C22": [
        ("garb", consts("call garbage rxmatch rxbad rxstray cancel pub", [AUTO3, cfg(2, sw=1)], 10, 26, seqs=(0, 1), rxw=ALLW), 32, 2),
        ("garbs", consts("call subx subb recv rxtopic rxtopicbad garbage rxmatch rxstray pub clone", [AUTO3, cfg(1, tmo=1)], 14, 26, handles=2, seqs=(0,), rxw=(1, 8), depths=(1, 2), top=(1, 2)), 32, 1),
    ],
}

# property -> list of (consts quick, consts thorough or None, invariants, temporal properties)
MC = {
    "C01": [(consts("call raw cancel rxmatch rxerror rxstray", [AUTO1], 2, 2, seqs=(0,)),
             consts("call raw cancel rxmatch rxerror rxstray", [AUTO1], 2, 3, seqs=(0, 1)),
             ["CallsGetOwnResponse", "NoFrameServesTwo", "NothingOwedIsMissed", "AutoSeqDistinct"], []),
            (None, consts("call cancel rxmatch rxerror", [AUTO1, GATE1], 3, 2),
             ["CallsGetOwnResponse", "NoFrameServesTwo", "NothingOwedIsMissed", "AutoSeqDistinct"], [])],
    "C02": [(consts("call pub wait close wireerr txerr drop clone rxmatch", [AUTO1, GATE1], 2, 1, handles=2),
             consts("call pub wait close wireerr txerr drop clone rxmatch", [AUTO1, GATE1], 3, 1, handles=2),
             ["ClosedMeansFinished"], ["NothingSucceedsAfterEnd", "ClosedIsForever", "OnlyEndsForACause"]),
            (consts("call subx recv close rxtopic", [AUTO1, cfg(1, tmo=1)], 2, 2),
             consts("call subx recv close rxtopic", [AUTO1, cfg(1, tmo=1)], 3, 2),
             ["ClosedMeansFinished"], ["ClosedIsForever"])],
    "C08": [(consts("call pub rxmatch rxerror cancel", [AUTO1], 2, 2, rxw=(1, 2)),
             consts("call pub rxmatch rxerror cancel", [AUTO1], 3, 2, rxw=(1, 2)), [],
             ["KeyLenFromResponses", "FramesUseKeyLen", "LastAnswer"])],
    "C09": [(consts("subx subl dropsub rxtopic", [AUTO1], 3, 2),
             consts("subx subl subb dropsub rxtopic", [AUTO1, cfg(1, tmo=1)], 4, 2),
             ["OneOwner"], ["ExclusiveKeepsOwner"])],
    "C10": [(consts("subx subl recv dropsub rxtopic tick", [AUTO1, cfg(1, tmo=1)], 3, 3),
             consts("subx subl recv dropsub rxtopic tick", [AUTO1, cfg(1, tmo=1)], 4, 3),
             ["QueueWithinDepth"], ["LossOnlyWhenFull", "HeldLostOnlyOnTimeout"])],
    "C11": [(consts("subb recv dropsub rxtopic", [AUTO1], 3, 4),
             consts("subb recv dropsub rxtopic", [AUTO1], 4, 5), [], ["BroadcastToAll"])],
    "C12": [(consts("call pub cancel txerr close", [AUTO1, GATE1], 3, 0),
             consts("call pub cancel txerr close", [AUTO1, GATE1, GATE2], 4, 0),
             ["SentOnce", "AcceptedIsQueuedOrSent", "QueueBounded"], ["SentIsAppendOnly"])],
    "C19": [(consts("call raw cancel rxmatch", [cfg(1, sw=1), cfg(1, sw=2)], 2, 2, seqs=(256, 65536)),
             consts("call raw cancel rxmatch", [cfg(1, sw=1), cfg(1, sw=2)], 3, 2, seqs=(256, 65536)),
             ["AutoSeqDistinct", "CallsGetOwnResponse"], [])],
    "C20": [(consts("call raw cancel rxmatch rxstray", [AUTO1], 2, 2, seqs=(0,)),
             consts("call raw cancel rxmatch rxstray", [AUTO1], 2, 3, seqs=(0,)),
             ["RefusedSendsNothing", "AutoSeqDistinct"], [])],
    "C22": [(consts("call subx garbage rxmatch rxstray", [AUTO1], 2, 2, seqs=(0,)),
             consts("call subx garbage rxmatch rxstray", [AUTO1], 2, 3, seqs=(0,)), [], ["GarbageHasNoEffect"])],
}


def run(c, pid, quick_total=1600, thorough_total=24000):
    exe = c.build()
    for q, t, invs, prs in MC[pid]:
        for k, lim in ((q, 800), (None if c.quick else t, 1200)):
            if k:
                c.mc("HostClientMC", k, invs, prs, timeout=lim)
    w = sum(x[3] for x in GEN[pid])
    total = quick_total if c.quick else thorough_total
    for n, (name, k, ln, wt) in enumerate(GEN[pid]):
        scripts = c.generate("HostClientGen", dict(k, ScriptLen=ln), total * wt // w if wt else 16 if c.quick else 200, 12 * ln, seed_off=n)
        traces = c.replay(exe, "client", scripts)
        c.validate("HostClientTrace", traces, f"client profile {name}")
    if pid in ("C01", "C19"):
        rpc.run_threads(c, exe, 60 if c.quick else 1000, "callers on several threads, with a real server")
