"""Shared machinery of the checks: build, TLC, replay, trace validation, evidence, verdict."""
import json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    """The check itself could not do its work: exit 2, never a verdict."""


class TlcTimeout(ToolError):
    pass


def tla(v):
    """Python value -> TLA+ expression."""
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, dict):
        return "[" + ", ".join(f"{k} |-> {tla(x)}" for k, x in v.items()) + "]"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, tuple):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, list):  # a set of records (unhashable in Python)
        return "{" + ", ".join(tla(x) for x in v) + "}"
    raise TypeError(v)


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.work = os.path.join(ROOT, "work", f"{pid}-{tier}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.violations = [], [], []
        self.assumptions = []
        self.exhaustive_models = 0
        self.n = 0

    quick = property(lambda s: s.tier == "quick")

    def log(self, *a):
        print(f"[{time.time() - self.t0:6.1f}s]", *a, flush=True)

    # ---------------------------------------------------------------- build
    def build(self, crate="harness", const_eval=False, env=None):
        d = os.path.join(ROOT, crate)
        cmd = (". /opt/vp/env.sh; export CARGO_TARGET_DIR=%s/target; "
               "cargo build --offline --locked -q" % d)
        t = time.time()
        r = subprocess.run(["bash", "-c", cmd], cwd=d, capture_output=True, text=True, env=dict(os.environ, **(env or {})))
        if r.returncode != 0 and const_eval and ("error[E0080]" in r.stderr or "could not compile `vhi`" in r.stderr and "/gen.rs:" in r.stderr):
            # what the macros make of well-formed declarations was refused
            self.violate("a well-formed application does not compile",
                         {"stderr": r.stderr[-4000:]})
            return None
        if r.returncode != 0:
            raise ToolError("harness build failed:\n" + r.stderr[-4000:])
        self.log(f"built {crate} in {time.time() - t:.1f}s")
        name = {"harness": "vh", "harness-usb": "vhu", "harness-nusb": "vhn", "harness-icd": "vhi", "harness-e2e": "vhe"}[crate]
        return os.path.join(d, "target", "debug", name)

    # ------------------------------------------------------------------ TLC
    def _module(self, base, consts, defs=""):
        """A wrapper module giving values to the constants; returns its name and CONSTANTS block."""
        self.n += 1
        name = f"W{self.n}_{base}"
        body, block = [f"---- MODULE {name} ----", f"EXTENDS {base}", defs], ["CONSTANTS"]
        for k, v in consts.items():
            if isinstance(v, (bool, int, str)):
                block.append(f" {k} = {tla(v)}")
            else:
                body.append(f"c_{k} == {tla(v)}")
                block.append(f" {k} <- c_{k}")
        body.append("====")
        with open(os.path.join(self.work, name + ".tla"), "w") as f:
            f.write("\n".join(body) + "\n")
        return name, "\n".join(block) if len(block) > 1 else ""

    def tlc(self, name, cfg, args=(), timeout=800, heap="6g"):
        with open(os.path.join(self.work, name + ".cfg"), "w") as f:
            f.write(cfg)
        meta = os.path.join(self.work, "meta_" + name)
        cmd = ["java", "-Xss64m", "-XX:+UseParallelGC", f"-Xmx{heap}", f"-DTLA-Library={SPEC}", "-cp", CP,
               "tlc2.TLC", "-config", name + ".cfg", "-metadir", meta, "-noGenerateSpecTE",
               "-deadlock", *args, name + ".tla"]
        out = os.path.join(self.work, name + ".out")
        try:
            with open(out, "w") as f:
                r = subprocess.run(cmd, cwd=self.work, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise TlcTimeout(f"TLC timed out on {name}")
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        txt = open(out, errors="replace").read()
        return r.returncode, txt

    @staticmethod
    def counts(txt):
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", txt)
        if not m:
            m2 = re.findall(r"The number of states generated: ([\d,]+)", txt)
            return (0, int(m2[-1].replace(",", ""))) if m2 else (0, 0)
        g, d = m[-1]
        return int(d.replace(",", "")), int(g.replace(",", ""))

    def mc(self, base, consts, invs=(), props=(), spec="Spec", timeout=800, constraint=None, defs="", workers="8"):
        """Exhaustively check the specification itself within the given bounds."""
        name, block = self._module(base, consts, defs)
        cfg = f"SPECIFICATION {spec}\n{block}\n"
        cfg += "".join(f"INVARIANT {i}\n" for i in invs) + "".join(f"PROPERTY {p}\n" for p in props)
        if constraint:
            cfg += f"CONSTRAINT {constraint}\n"
        try:
            rc, txt = self.tlc(name, cfg, ["-workers", workers], timeout)
        except TlcTimeout:
            if self.quick:
                raise
            txt = open(os.path.join(self.work, name + ".out"), errors="replace").read()
            if "Error:" in txt:
                raise ToolError(f"the specification {base} fails its own properties:\n" + txt[-3000:])
            m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", txt)
            g, d = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
            self.states += d
            self.transitions += g
            self.notes.append(f"{base} with the thorough bounds: stopped after {timeout} s and {d} distinct states, "
                              "not exhaustive, no violation")
            self.log(self.notes[-1])
            return
        if rc != 0 or "Model checking completed. No error has been found." not in txt:
            raise ToolError(f"the specification {base} fails its own properties:\n" + txt[-3000:])
        d, g = self.counts(txt)
        self.states += d
        self.transitions += g
        self.exhaustive_models += 1
        self.log(f"{base}: {d} distinct states, {g} transitions, {', '.join(list(invs) + list(props))}")

    def generate(self, base, consts, num, depth, spec="GSpec", shards=4, inv="Emit", defs="", bfs=False,
                 seed_off=0, timeout=800):
        """Behaviours of the specification, as scripts (deduplicated)."""
        name, block = self._module(base, consts, defs)
        cfg = f"SPECIFICATION {spec}\n{block}\nINVARIANT {inv}\n"
        procs, txts = [], []
        if bfs:
            rc, txt = self.tlc(name, cfg, ["-workers", "8"], timeout)
            if rc != 0:
                raise ToolError(f"generation with {base} failed:\n" + txt[-3000:])
            txts = [txt]
            d, g = self.counts(txt)
            self.states += d
            self.transitions += g
        else:
            from concurrent.futures import ThreadPoolExecutor

            def one(k):
                nm = f"{name}_{k}"
                src = open(os.path.join(self.work, name + ".tla")).read().replace(f"MODULE {name} ", f"MODULE {nm} ")
                open(os.path.join(self.work, nm + ".tla"), "w").write(src)
                return self.tlc(nm, cfg, ["-simulate", f"num={num // shards}", "-depth", str(depth), "-workers", "1",
                                          "-seed", str(self.seed * 1000 + seed_off * 10 + k)], timeout, heap="2g")
            with ThreadPoolExecutor(shards) as ex:
                for rc, txt in ex.map(one, range(shards)):
                    if rc != 0:
                        raise ToolError(f"generation with {base} failed:\n" + txt[-3000:])
                    txts.append(txt)
                    self.transitions += self.counts(txt)[1]
        seen, res = set(), []
        for txt in txts:
            for line in txt.splitlines():
                if line.startswith('"SCRIPT '):
                    s = line[8:-1].replace('\\"', '"').replace("\\\\", "\\")
                    if s not in seen:
                        seen.add(s)
                        res.append(json.loads(s))
        if not res:
            raise ToolError(f"{base} generated no scripts")
        if not bfs and num and len(res) > num:
            # several scripts may come from one behaviour: spread the choice over all of them
            res = [res[i * len(res) // num] for i in range(num)]
        self.log(f"{base}: {len(res)} distinct scripts")
        return res

    # --------------------------------------------------------------- replay
    def replay(self, exe, driver, scripts, timeout=600, env=None):
        """Run the scripts in the real code; returns the recorded traces."""
        self.n += 1
        for i, s in enumerate(scripts, 1):
            s["id"] = i
        inp = os.path.join(self.work, f"{driver}{self.n}.scripts.ndjson")
        out = os.path.join(self.work, f"{driver}{self.n}.traces.ndjson")
        with open(inp, "w") as f:
            for s in scripts:
                f.write(json.dumps(s) + "\n")
        e = dict(os.environ, RUST_BACKTRACE="0", **(env or {}))
        try:
            r = subprocess.run([exe, driver, inp, out], capture_output=True, text=True, timeout=timeout, env=e, errors="replace")
        except subprocess.TimeoutExpired:
            raise ToolError(f"driver {driver} timed out")
        if r.returncode == 3 and os.path.exists(out + ".hang"):
            i = int(open(out + ".hang").read())
            self.violate(f"{driver}: the code under test never came to rest",
                         {"driver": driver, "script": scripts[i - 1] if 0 < i <= len(scripts) else None})
            return []
        if r.returncode == 4:
            self.log(f"driver {driver} cannot run here: {r.stderr[-200:]}")
            return None
        if r.returncode == 2:
            raise ToolError(f"driver {driver}: {r.stderr[-2000:]}")
        if r.returncode != 0:
            cur = open(out + ".cur").read() if os.path.exists(out + ".cur") else "?"
            self.violate(f"{driver}: the code under test crashed (exit {r.returncode}) in script {cur}",
                         {"driver": driver, "stderr": r.stderr[-2000:], "script": scripts[int(cur) - 1] if cur.isdigit() else None})
            return []
        tr = [json.loads(l) for l in open(out)]
        if len(tr) != len(scripts):
            raise ToolError(f"driver {driver}: {len(tr)} traces for {len(scripts)} scripts")
        return tr

    # ----------------------------------------------------------- validation
    def validate(self, base, traces, what, consts=None, timeout=800, explain=True, chunk=2500, spec="TSpec", fallback=None):
        """Is every recorded trace a behaviour of the specification?"""
        rejected = []
        for c in range(0, len(traces), chunk):
            part = traces[c:c + chunk]
            acc, txt = self._validate(base, part, consts, False, timeout, spec)
            bad = [t for t in part if t["id"] not in acc]
            if bad and fallback:
                # the constants only chose a cheaper exploration: decide with these
                acc = self._validate(base, bad[:40], fallback, False, timeout, spec)[0]
                self.log(f"{base}: {len(acc)} of {len(bad)} traces accepted only by the full exploration")
                bad = [t for t in bad if t["id"] not in acc]
            rejected += bad
            self.traces += len(part) - len(bad)
            d, g = self.counts(txt)
            self.states += d
            self.transitions += g
        self.log(f"{base}: {len(traces) - len(rejected)} of {len(traces)} traces accepted ({what})")
        if traces and len(self.samples) < 3:
            t = traces[len(traces) // 2]
            self.samples.append({"what": what, "trace": t if len(json.dumps(t)) < 6000 else json.dumps(t)[:3000]})
        if rejected:
            # re-validate on its own, so that a verdict never rests on a batch effect
            rejected.sort(key=lambda t: len(t.get("ev", [])))
            t = rejected[0]
            acc, txt = self._validate(base, [t], fallback or consts, explain, timeout, spec)
            if t["id"] in acc:
                raise ToolError(f"{base}: trace {t['id']} rejected in a batch but accepted alone")
            last = [l for l in txt.splitlines() if l.startswith('<<"AT"')][-12:]
            self.violate(f"{what}: {len(rejected)} executions are not behaviours of {base}",
                         {"spec": base, "trace": t, "explain": last})
        return rejected

    def _validate(self, base, part, consts, explain, timeout, spec):
        self.n += 1
        tf = os.path.join(self.work, f"v{self.n}.ndjson")
        with open(tf, "w") as f:
            for t in part:
                f.write(json.dumps(t) + "\n")
        name, block = self._module(base, dict(consts or {}, TraceFile=tf, Explain=explain))
        cfg = f"SPECIFICATION {spec}\n{block}\nINVARIANT Report\n"
        rc, txt = self.tlc(name, cfg, ["-workers", "8"], timeout)
        acc = {int(m) for m in re.findall(r'<<"ACCEPTED", (\d+)>>', txt)}
        if rc != 0:
            if len(part) == 1:
                # a value the specification has no meaning for: not a behaviour of it
                if "TLC threw" in txt or "Error: " in txt:
                    return acc, txt
                raise ToolError(f"{base}: TLC failed:\n" + txt[-3000:])
            # isolate: validate in halves so that one unreadable trace does not hide the others
            mid = len(part) // 2
            a, ta = self._validate(base, part[:mid], consts, explain, timeout, spec)
            b, tb = self._validate(base, part[mid:], consts, explain, timeout, spec)
            return a | b, ta + tb
        return acc, txt

    # -------------------------------------------------------------- verdict
    def violate(self, msg, data):
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{self.pid}-{len(self.violations) + 1}.json")
        with open(p, "w") as f:
            json.dump({"property": self.pid, "what": msg, "seed": self.seed, **data}, f, indent=1)
        self.violations.append((msg, p))
        self.log("violated:", msg)

    def finish(self):
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces, "samples": self.samples or ["none"],
                           "exhaustively_checked_models": self.exhaustive_models, "notes": self.notes},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.violations:
            for msg, p in self.violations[:5]:
                print(f"VIOLATION property={self.pid} replay={p}  {msg}", flush=True)
            return 1
        shutil.rmtree(self.work, ignore_errors=True)
        self.log("held on everything explored")
        return 0
