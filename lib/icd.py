"""Declarations of endpoints and topics (Icd.tla): generated from the specification, compiled, compared."""
import json, os
from core import ToolError

TYPES = ["u8", "u16", "u32", "u64", "bool", "()", "String", "(u8, u16)", "[u8; 4]", "[u8; 5]", "Leaf", "Leaf2", "Other", "Marker", "Wrap", "Pair",
         "Inner", "Plain", "Deep", "Wide", "Maps", "i8", "char", "f32", "Bor<'a>", "Bor2<'a>"]
BORROWED = {i + 1 for i, t in enumerate(TYPES) if "'a" in t}
PATHS = ["", "a", "b", "ab", "a/b", "a/b/", "A/b", "verif/icd/endpoint", "verif/icd/topic", "größe/✓", "x" * 200, "postcard-rpc/ping2",
         "postcard-rpc", "postcard-rpc/logging/", "error", "a b\tc", "0", "00"]


def b(s):
    return tuple(s.encode())


def node(n, k, f=(), c=()):
    return {"n": b(n), "k": k, "f": tuple(b(x) for x in f), "c": tuple(c)}


def prim(k):
    return node(k, k)


KEY = node("Key", "newtype", (), [node("[u8; 8]", "tuple", (), [prim("u8")] * 8)])
TOTALS = node("SchemaTotals", "struct", ("types_sent", "endpoints_sent", "topics_in_sent", "topics_out_sent", "errors"), [prim("u32")] * 5)
DIRECTION = node("TopicDirection", "enum", (), [node("ToServer", "v-unit"), node("ToClient", "v-unit")])
DATA = node("SchemaData", "enum", (), [
    node("Type", "v-newtype", (), [prim("schema")]),
    node("Endpoint", "v-struct", ("path", "request_key", "response_key"), [prim("string"), KEY, KEY]),
    node("Topic", "v-struct", ("path", "key", "direction"), [prim("string"), KEY, DIRECTION])])
STD_EPS = ({"p": b("postcard-rpc/ping"), "req": prim("u32"), "resp": prim("u32")},
           {"p": b("postcard-rpc/schemas/get"), "req": prim("unit"), "resp": TOTALS})
STD_OUT = ({"p": b("postcard-rpc/schema/data"), "msg": DATA}, {"p": b("postcard-rpc/logging"), "msg": prim("string")})


def rust(scripts):
    """The declarations as a Rust module."""
    o = [f"pub const COUNT: usize = {len(scripts)};",
         "pub fn types() -> serde_json::Value { use crate::types::*; use postcard_schema::Schema; serde_json::Value::Array(vec![%s]) }"
         % ", ".join(f"crate::tree(<{t.replace(chr(39) + 'a', chr(39) + 'static')} as Schema>::SCHEMA)" for t in TYPES)]

    def lit(p):
        return json.dumps(PATHS[p - 1], ensure_ascii=False)

    def row(name, tys, e, col):
        cfg = {"on": "cfg(all())", "off": "cfg(any())", "none": ""}[e["cfg"]]
        return "| %s | %s | %s |%s" % (name, " | ".join(TYPES[t - 1] for t in tys), lit(e["path"]), f" {cfg} |" if col else "")

    def cols(l):
        return (" Cfg |", " --- |") if any(e["cfg"] != "none" for e in l) else ("", "")

    def own(t):
        return TYPES[t - 1].replace("'a", "'static")
    arms = []
    for i, s in enumerate(scripts, 1):
        on = lambda l: [(k, e) for k, e in enumerate(l, 1) if e["cfg"] != "off"]
        eps, tin, tout = on(s["eps"]), on(s["tin"]), on(s["tout"])
        om = {k: "" if v == "none" else f"omit_std = {v};" for k, v in s["omit"].items()}
        m = [f"pub mod m{i} {{", "#![allow(unused_imports, dead_code)]", "use crate::types::*; use postcard_rpc::{endpoints, topics, TopicDirection};"]
        cc = cols(s["eps"])
        m += ["endpoints! { list = EPS; %s" % om["e"], "| EndpointTy | RequestTy | ResponseTy | Path |" + cc[0], "| --- | --- | --- | --- |" + cc[1]]
        m += [row(f"E{k}", (e["req"], e["resp"]), e, cc[0]) for k, e in enumerate(s["eps"], 1)] + ["}"]
        for nm, key, lst, d, pre in (("TIN", "i", s["tin"], "ToServer", "I"), ("TOUT", "o", s["tout"], "ToClient", "O")):
            cc = cols(lst)
            m += ["topics! { list = %s; direction = TopicDirection::%s; %s" % (nm, d, om[key]), "| TopicTy | MessageTy | Path |" + cc[0], "| --- | --- | --- |" + cc[1]]
            m += [row(f"{pre}{k}", (e["msg"],), e, cc[0]) for k, e in enumerate(lst, 1)] + ["}"]
        # the same items one by one, where the types do not borrow
        m += ["mod one { use crate::types::*; use postcard_rpc::{endpoint, topic};"]
        m += [f"endpoint!(E{k}, {own(e['req'])}, {own(e['resp'])}, {lit(e['path'])}{',' * (k % 2)});" for k, e in eps]
        m += [f"topic!(I{k}, {own(e['msg'])}, {lit(e['path'])}{',' * (k % 2)});" for k, e in tin] + ["}"]
        # and without a path: their names stand in for it
        m += ["mod bare { use crate::types::*; use postcard_rpc::{endpoint, topic};"]
        m += [f"endpoint!(E{k}, {own(e['req'])}, {own(e['resp'])});" for k, e in eps]
        m += [f"topic!(I{k}, {own(e['msg'])});" for k, e in tin] + ["}"]
        s["bne"], s["bni"] = [list(b(f"E{k}")) for k, _ in eps], [list(b(f"I{k}")) for k, _ in tin]
        # a dispatcher needs the standard endpoints and outgoing topics
        disp = s["disp"] and s["omit"]["e"] != "true"
        s["disp"] = disp
        if disp:
            m += ["use crate::{h_ep, h_tp, Ctx}; use postcard_rpc::server::impls::test_channels::{ChannelWireTx, ChannelWireSpawn, tokio_spawn};",
                  "postcard_rpc::define_dispatch! { app: App; spawn_fn: tokio_spawn; tx_impl: ChannelWireTx; spawn_impl: ChannelWireSpawn; context: Ctx;",
                  "endpoints: { list: EPS; | EndpointTy | kind | handler | | --- | --- | --- |"]
            m += [f"| E{k} | blocking | h_ep |" for k, _ in eps] + ["};", "topics_in: { list: TIN; | TopicTy | kind | handler | | --- | --- | --- |"]
            m += [f"| I{k} | blocking | h_tp |" for k, _ in tin] + ["}; topics_out: { list: TOUT; }; }"]
        arr = lambda f, pre, l: "serde_json::Value::Array(vec![%s])" % ", ".join(f"crate::{f}::<{pre}{k}>()" for k, _ in l)
        m += ["pub fn dump() -> serde_json::Value { let mut v = crate::lists(&EPS, &TIN, &TOUT);",
              f"v[\"ce\"] = {arr('ep', 'E', eps)}; v[\"ci\"] = {arr('tp', 'I', tin)}; v[\"co\"] = {arr('tp', 'O', tout)};",
              f"v[\"se\"] = {arr('ep', 'one::E', eps)}; v[\"si\"] = {arr('tp', 'one::I', tin)};",
              f"v[\"be\"] = {arr('ep', 'bare::E', eps)}; v[\"bi\"] = {arr('tp', 'bare::I', tin)};"]
        if disp:
            m += ["let app = App::new(Ctx, ChannelWireSpawn {}); crate::device(&mut v, app.device_map);"]
        m += ["v }", "}"]
        o += m
        arms.append(f"{i} => m{i}::dump(),")
    o += ["pub fn dump(i: usize) -> serde_json::Value { match i { %s _ => unreachable!() } }" % " ".join(arms)]
    return "\n".join(o) + "\n"


def c24(c):
    c.mc("IcdMC", {"Paths": {b("a"), b("b"), b("ab")}}, ["NamesDontCount", "Separates"], timeout=800)
    num = 100 if c.quick else 1000
    s = c.generate("IcdGen", {"NTypes": len(TYPES), "Borrowed": BORROWED, "NPaths": len(PATHS), "MaxEps": 7, "MaxTps": 5}, num, 60)
    d = os.path.join(c.work, "gen")
    for k in range(0, len(s), 120):
        part = s[k:k + 120]
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "gen.rs"), "w") as f:
            f.write(rust(part))
        exe = c.build("harness-icd", const_eval=True, env={"VERIF_ICD": d})
        if exe is None:
            return
        tr = c.replay(exe, "icd", part + [{"std": True}])
        for t, sc in zip(tr, part):
            t.update(op="decl", decl=sc, disp=sc["disp"])
        types = os.path.join(c.work, "types.ndjson")
        import subprocess
        if subprocess.run([exe, "types", os.devnull, types]).returncode:
            raise ToolError("harness-icd types")
        consts = {"TypesFile": types, "Path": tuple(b(p) for p in PATHS), "StdEps": STD_EPS, "StdOut": STD_OUT, "StdIn": ()}
        c.validate("IcdTrace", tr, "declarations", consts=consts)
        dev = c.build("harness-usb")
        c.validate("IcdTrace", c.replay(dev, "icd", [{"std": True}]), "standard declarations on a device without std", consts=consts) if k == 0 else None
