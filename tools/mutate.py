#!/usr/bin/env python3
"""Mutation campaign (development tool, not a check).

python3 tools/mutate.py LIST.py [-j N] [-t] [id ...]

LIST.py defines MUTANTS = [(id, "C01 C02", file, old, new) | (id, props, [(file, old, new), ...])].
Each mutant is applied to a copy of /repo and the quick checks of the named properties are run against
that copy, in a mount namespace where the copies lie at /repo and /verif. With -t the existing tests
are run as well (a mutant they catch is reported as 'tested')."""
import os, re, shutil, subprocess, sys, queue, threading, importlib.util, time

BASE = os.environ.get("MUTSLOTS", "/tmp/mutslots")
SRC = "source/postcard-rpc/src/"


def main():
    args = sys.argv[1:]
    j, tests, ids, lst, first = 2, False, [], None, False
    while args:
        a = args.pop(0)
        if a == "-j": j = int(args.pop(0))
        elif a == "-1": first = True
        elif a == "-t": tests = True
        elif lst is None: lst = a
        else: ids.append(a)
    spec = importlib.util.spec_from_file_location("m", lst)
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    q = queue.Queue()
    for mu in m.MUTANTS:
        if not ids or mu[0] in ids:
            q.put(mu)
    lock = threading.Lock()

    def say(*a):
        with lock:
            print(*a, flush=True)

    def worker(n):
        d = "%s/%d" % (BASE, n)
        os.makedirs(d, exist_ok=True)
        for s in ("repo", "verif"):
            subprocess.run(["rsync", "-a", "--delete", "/%s/" % s, d + "/" + s + "/"] if shutil.which("rsync")
                           else ["bash", "-c", "rm -rf %s/%s && cp -a /%s %s/%s" % (d, s, s, d, s)], check=True)
        def ns(cmd, **kw):
            return subprocess.run(["unshare", "-m", "bash", "-c",
                "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && %s" % (d, d, cmd)],
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
        while True:
            try: mu = q.get_nowait()
            except queue.Empty: return
            mid, props = mu[0], mu[1]
            edits = mu[2] if isinstance(mu[2], list) else [mu[2:5]]
            subprocess.run(["git", "-C", d + "/repo", "checkout", "-q", "--", "."], check=True)
            bad = None
            for ed in edits:
                if len(ed) == 4:    # (file, line index, old line, new line)
                    f, i, old, new = ed
                    p = d + "/repo/" + SRC + f
                    t = open(p).read().split("\n"); assert t[i] == old, (f, i)
                    t[i] = new; open(p, "w").write("\n".join(t)); continue
                f, old, new = ed
                p = d + "/repo/" + (f if f.startswith("source") else SRC + f)
                t = open(p).read()
                if t.count(old) < 1:
                    bad = "pattern not found in %s: %r" % (f, old[:60]); break
                nth = None
                mm = re.match(r"@(\d+)@", new)
                if mm:
                    nth = int(mm.group(1)); new = new[mm.end():]
                    parts = t.split(old)
                    t = old.join(parts[:nth]) + new + old.join(parts[nth:])
                else:
                    t = t.replace(old, new)
                open(p, "w").write(t)
            if bad:
                say(mid, "BAD", bad); continue
            out = []
            if tests:
                r = ns("bash /opt/vp/test.sh %s/t.json" % d)
                import json
                try:
                    res = json.load(open(d + "/t.json"))
                    base = json.load(open("/opt/vp/BASELINE.json"))
                    stable = set(base.get("stable_tests") or base.get("stable") or base.get("passed") or [])
                    ok = set(res.get("passed", []))
                    out.append("tests:%s" % ("ok" if stable <= ok else "FAIL"))
                except Exception as e:
                    out.append("tests:? %s" % e)
                if first and out[-1] != "tests:ok":
                    say(mid, "tested"); continue
            for p in props.split():
                t0 = time.time()
                r = ns("VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 check.py %s quick" % p)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
                out.append("%s:%s(%ds)" % (p, "caught" if r.returncode == 1 and v else
                                          "MISSED" if r.returncode == 0 else "ERR%d %s" % (r.returncode, r.stdout[-300:]),
                                          time.time() - t0))
                if first and "MISSED" not in out[-1]:
                    break
            if first and "MISSED" in out[-1]:
                say("SURVIVOR", mid, edits)
            say(mid, " ".join(out))
        
    ts = [threading.Thread(target=worker, args=(i,)) for i in range(j)]
    for t in ts: t.start()
    for t in ts: t.join()


main()
