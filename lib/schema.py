"""Checks of schema discovery (Schema.tla) and type lists (TypeSet.tla)."""
T, EP, IN, OUT = "type", "ep", "in", "out"


def m(k, *needs):
    return {"k": k, "needs": set(needs)}


MAPS = [(m(T), m(EP, 1)), (m(T), m(T), m(EP, 1), m(IN)), (m(EP), m(OUT), m(IN))]


def c13(c):
    exe = c.build()
    K = {"Wait": 100, "Depth": 64}
    c.mc("SchemaMC", dict(K, NoD=1, Depth=2, Maps=MAPS, MaxTick=3, MaxClose=1),
         ["NeverIncomplete", "CleanSucceeds", "NothingOpenAfterClose"], spec="MSpec")
    c.mc("SchemaMC", dict(K, NoD=2, Depth=2, Maps=MAPS[:1] if c.quick else MAPS[:2], MaxTick=2, MaxClose=1),
         ["NeverIncomplete", "NothingOpenAfterClose"], spec="MSpec")
    n = c.replay(exe, "schema", [{"describe": True}])
    if not n:
        return
    size = n[0]["n"]
    s = c.generate("SchemaEach", {"Size": size}, 0, 0, bfs=True)
    c.validate("SchemaTrace", c.replay(exe, "schema", s), "discovery, each message lost or repeated", consts=dict(K, NoD=2), chunk=800)
    tot = 1600 if c.quick else 24000
    profiles = [
        ("clean", 1, "serve noise tick", 0, 24, 1),
        ("losses", 1, "serve fail lose gap noise tick dup", 2, 24, 3),
        ("tail", 1, "serve lose dup fail", 3, 20, 3),
        ("ends", 1, "serve fail lose nototals refuse close tick", 2, 20, 1),
        ("two", 2, "serve fail lose dup gap tick noise close", 3, 30, 3),
    ]
    for i, (name, nod, acts, faults, ln, w) in enumerate(profiles):
        s = c.generate("SchemaGen", dict(K, NoD=nod, ScriptLen=ln, Acts=set(acts.split()), Size=size, Faults=faults,
                                         Focus=23 if name == "tail" else 1000),
                       tot * w // 11, ln + 5, seed_off=i)
        c.validate("SchemaTrace", c.replay(exe, "schema", s), f"discovery profile {name}", consts=dict(K, NoD=2), chunk=800)


def c14(c):
    exe = c.build(const_eval=True)
    if not exe:
        return
    c.mc("TypeSetMC", {"Leaves": {"u8"}, "Names": {"N"}, "Kinds": {"option"} if c.quick else {"option", "enum", "tuple"}}, ["CollectIsRight", "MergeIsRight"])
    s = c.generate("TypeSetGen", {"Seed": c.seed, "From": 1, "To": 1, "Deep": 3, "Which": "all"}, 0, 0, bfs=True)
    s += c.generate("TypeSetGen", {"Seed": c.seed, "From": 1, "To": 2500 if c.quick else 60000, "Deep": 3, "Which": "random"}, 0, 0, bfs=True)
    s += [{"op": "static", "i": i} for i in range(41)]
    c.validate("TypeSetTrace", c.replay(exe, "types", s), "type lists", chunk=8000)
