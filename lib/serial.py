"""Profiles of the serial framing specifications."""


def cobs(ns, runs=(0, 1, 2, 65, 255), lens=(1, 2, 3, 7), nruns=3):
    return {"Cfgs": [{"n": n} for n in ns], "Blk": 254, "Runs": set(runs), "RunLens": set(lens), "MaxRuns": nruns}


COBS_GEN = [
    ("small accumulators", cobs((4, 8, 16)), 24, 4),
    ("tiny accumulators", cobs((1, 2), lens=(1, 2)), 20, 1),
    ("medium accumulators", cobs((33, 64), lens=(1, 2, 5, 9, 20, 31, 32, 61, 62, 63)), 22, 2),
    ("blocks of 254 bytes", cobs((256, 300, 600), runs=(0, 1, 255), lens=(1, 2, 40, 252, 253, 254, 255, 298, 508, 509)), 14, 0.5),
]
MC = ({"Cfgs": [{"n": 2}, {"n": 3}, {"n": 4}], "Blk": 2, "Alphabet": {0, 1, 2, 3}, "MaxStream": 5, "MaxChunk": 3},
      {"Cfgs": [{"n": 2}, {"n": 3}, {"n": 4}, {"n": 6}], "Blk": 2, "Alphabet": {0, 1, 2, 3}, "MaxStream": 8, "MaxChunk": 4})


def c17(c):
    exe = c.build()
    c.mc("CobsMC", MC[0] if c.quick else MC[1], ["ChunkingIrrelevant", "RoundTrip", "Recovers"], timeout=800 if c.quick else 1500)
    total, w = (1600 if c.quick else 20000), sum(g[3] for g in COBS_GEN)
    for n, (name, k, ln, wt) in enumerate(COBS_GEN):
        s = c.generate("CobsGen", dict(k, ScriptLen=ln), int(total * wt / w), 16 * ln, seed_off=n)
        c.validate("CobsTrace", c.replay(exe, "cobs", s), f"accumulator, {name}", consts={"Blk": 254})
    k = {"Cfgs": [{"w": w, "sw": s} for w in (1, 2, 4, 8) for s in (1, 2, 4)], "Lens": {0, 1, 2, 5, 6, 7, 60, 250, 251, 254, 300, 900, 1005},
         "Cuts": {1, 2, 3, 10, 100, 1000, 1014, 1024, 9000}}
    s = c.generate("SerialGen", dict(k, ScriptLen=24), 120 if c.quick else 1500, 40, seed_off=9)
    t = c.replay(exe, "serial", s)
    if t is None:
        c.notes.append("no pseudo terminals: the serial client itself was not run")
    else:
        c.validate("SerialTrace", t, "client on a serial line")
