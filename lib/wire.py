"""Checks of the header and key code against Wire.tla."""
import server

ALPHA = {0, 1, 255}


def cases(c, exe, which, n, extra=None):
    """n generated cases, split over several TLC runs of different seeds."""
    scripts = c.generate("WireGen", {"Seed": c.seed, "From": 1, "To": n, "Which": which}, 0, 0, bfs=True)
    for i in range(extra[1] if extra else 0):
        scripts.append({"op": "extra", "what": extra[0], "i": i})
    traces = c.replay(exe, "keys", scripts)
    c.validate("WireTrace", traces, f"{which} cases", chunk=20000)
    return traces


def c05(c):
    exe = c.build()
    c.mc("WireMC", {"Alpha": {0, 1}, "Tails": [(), (7,), (0, 0, 255)], "Which": "header"}, ["HeaderRoundTrips"])
    c.mc("WireMC", {"Alpha": {0, 9, 255}, "Tails": [()], "Which": "bytes"}, ["DecodeIsPartialInverse"])
    cases(c, exe, "header", 12000 if c.quick else 150000)


def c06(c):
    exe = c.build()
    c.mc("WireMC", {"Alpha": {0, 1, 3} if c.quick else {0, 1, 3, 255}, "Tails": [()], "Which": "key"}, ["FoldingComposes"])
    c.mc("WireMC", {"Alpha": {0, 1}, "Tails": [()], "Which": "keys"}, ["EqualIsSymmetric"])
    cases(c, exe, "key", 16000 if c.quick else 200000, ("consts", 12))


def c07(c):
    exe = c.build(const_eval=True)
    if not exe:
        return
    c.mc("WireMC", {"Alpha": {0, 1} if c.quick else {0, 1, 2}, "Tails": [()], "Which": "keys"}, ["MinLenIsLeast", "EqualIsSymmetric"])
    cases(c, exe, "min", 10000 if c.quick else 120000, ("apps", len(server.APPS)))
    scripts = c.generate("ServerGen", dict(server.consts("good req pub", 24, pub=3), ScriptLen=36),
                         1200 if c.quick else 20000, 500)
    c.validate("ServerTrace", c.replay(exe, "server", scripts), "routing at every key length")
