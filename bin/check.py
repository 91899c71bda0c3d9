#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

Decides one property of /repo's current tree against the TLA+ specification in
/verif/spec (see DESIGN.md).  Exit 0: it held on everything explored; 1: a line
VIOLATION property=<id> replay=<path>; 2: the check could not be made."""
import argparse, itertools, threading, traceback
from lib import *
import profiles as prof

# ---- containers, and the forms of keys and values they are tried with

INTK, STRK, ARRK = ["ext", "hi", "lo", "seq"], ["mix", "long", "seq", "heap", "huge"], ["mix", "last", "seq"]
CUSK = ["seq", "live"]
def kinds(sets):
    c = "Set" if sets else "Map"
    d = {"Int" + c: INTK, "String" + c: STRK, "Bytes" + c: STRK}
    for n in (4, 16, 24, 64):
        d[f"Arr{c}{n}"] = ARRK
    d[c + "/Custom"] = CUSK
    d[c + "/String"] = STRK
    d[c + "/Bytes"] = STRK
    d[c + "/Int"] = INTK
    return d
MAPS, SETS = kinds(False), kinds(True)
ALL = dict(MAPS, **SETS)
WATCHED = dict(ALL, ArrMapP=["ptr"], ArrSetP=["ptr"])   # keys that refer to memory, too
VALS = ["u64", "obj", "big", "str", "u8", "any", "box", "bool", "none"]
# one of each source file, for the dearer campaigns
CORE_MAPS = ["IntMap", "StringMap", "BytesMap", "ArrMap16", "Map/Custom"]
CORE_SETS = ["IntSet", "StringSet", "BytesSet", "ArrSet16", "Set/Custom"]

CONTENT = {"look", "lookv", "has", "len", "all", "allv", "key", "stop", "modcalls", "modex", "modold", "ptr", "ptrv", "cbv"}
SHAPE = {"dep", "depref", "order", "repeat"}
EVERY = CONTENT | SHAPE | {"nil", "cbpanic"}

class Ctx:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.work = tempfile.mkdtemp(prefix="amtverif-")
        self.t0 = time.time()
        self.rng = random.Random(f"{pid}/{seed}")
        self.lock = threading.Lock()
        self.builds, self.families, self.graphs = {}, {}, {}
        self.tags = set()
        self.found = []           # violations: dict(kind, tag, what, replay)
        self.states = self.transitions = 0
        self.traces = 0           # histories of the real code compared with the specification
        self.samples, self.notes = [], []
        self.cover = {"walks": 0, "walk_steps": 0, "graph_edges": 0, "graph_edges_covered": 0, "events": 0,
                      "depths_compared": 0, "hash_profiles": 0, "containers": set(), "models": []}
        self.profiles_used = set()
        self.intkey = True

    def log(self, *a):
        print(f"[{time.time() - self.t0:6.1f}s]", *a, flush=True)

    # -- builds
    def build(self, name="plain", flags=(), hook=True):
        key = (name, tuple(flags), hook)
        if key not in self.builds:
            d = os.path.join(self.work, "build-" + name)
            os.makedirs(d, exist_ok=True)
            b, err = go_build(d, "amtharness", tags=["intkey"] if self.intkey else [], flags=flags, hook=hook, ok_fail=True)
            if b is None and self.intkey and ("amt.Int" in err or "intkey" in err):
                b, err2 = go_build(d, "amtharness", flags=flags, hook=hook, ok_fail=True)
                if b is not None:
                    self.intkey = False
                    if "helper" in self.tags:
                        self.note_violation("build", "helper", "amt.Int cannot be used as the key type of a generic container: " + err.strip()[-300:], {"err": err})
            if b is None:
                raise CheckError("the harness does not build:\n" + err)
            self.builds[key] = b
        return self.builds[key]

    def has_kind(self, kind):
        return self.intkey or not kind.endswith("/Int")

    # -- hash assignments
    def family(self, n, tag="", deepest=False):
        k = (n, tag)
        if k not in self.families:
            ps = prof.family(self.seed, n, tag, deepest)
            path = os.path.join(self.work, f"prof-{n}{tag}.json")
            json.dump(ps, open(path, "w"))
            self.families[k] = (ps, path)
        return self.families[k]

    # -- violations
    def note_violation(self, kind, tag, what, replay):
        with self.lock:
            self.found.append(dict(kind=kind, tag=tag, what=what, replay=replay))

    def pool(self, jobs, n=8):
        """Run jobs (callables); the first error is raised."""
        def timed(j):
            if len(self.found) >= 40:   # enough to report; a tree that hangs everywhere would take for ever
                return
            t = time.time()
            j()
            if os.environ.get("AMT_TIMES"):
                self.log(j.__qualname__, "%.1fs" % (time.time() - t), [(x.cell_contents if not isinstance(x.cell_contents, list) else x.cell_contents[0]) for x in (j.__closure__ or []) if isinstance(x.cell_contents, (dict, str, list))][:2])
        with cf.ThreadPoolExecutor(n) as ex:
            fs = [ex.submit(timed, j) for j in jobs]
            for f in fs:
                f.result()
            return [f.result() for f in fs]

    # -- model checking proper
    def model(self, spec, cfg, workers=2, dev=None, expect=None, subst=(), timeout=800, heap="3g"):
        """Check a bounded instance of the specification.  With dev: the same
        instance with a deviation, which must be rejected."""
        text = open(os.path.join(SPEC, cfg + ".cfg")).read()
        for a, b in subst:
            if a not in text:
                raise CheckError(f"{cfg}: no {a}")
            text = text.replace(a, b)
        if dev:
            text = text.replace("Dev={}", 'Dev={"%s"}' % dev).replace('Dev="None"', 'Dev="%s"' % dev)
        def job():
            r = tlc(self.work, spec, cfg, workers=workers, cfgtext=text, timeout=timeout, heap=heap, quick=bool(dev) or not self.thorough)
            name = cfg + ("+" + dev if dev else "")
            if dev:
                if r.complete or not re.search(r"(Invariant|Temporal|Action property|Error:).*violated|is violated", r.text):
                    raise CheckError(f"model {name}: the deviation is not rejected:\n" + r.text[-1500:])
            elif not r.complete:
                raise CheckError(f"model {name} failed:\n" + r.text[-3000:])
            with self.lock:
                if not dev:
                    self.states += r.distinct
                    self.transitions += r.generated
                self.cover["models"].append(dict(model=name, states=r.distinct, transitions=r.generated,
                                                 outcome="rejected, as it must be" if dev else "holds"))
            self.log(f"model {name}: {r.distinct} states, {r.generated} transitions" + (" (rejected)" if dev else ""))
        return job

    # -- walks: behaviours of the specification replayed into the real code
    def graph(self, name):
        """TLC prints the whole transition graph of spec/Graph_<name>.cfg."""
        def job():
            path = os.path.join(self.work, name + ".graph")
            r = tlc(self.work, "Graph", "Graph_" + name, workers=1, out=path)
            if not r.complete:
                raise CheckError(f"graph {name} failed:\n" + r.text[-2000:])
            with self.lock:
                self.states += r.distinct
                self.transitions += r.generated
            self.log(f"graph {name}: {r.distinct} states, {r.generated} transitions")
        self.graphs[name] = os.path.join(self.work, name + ".graph")
        return job

    GRAPH_N = {"dict": 6, "set": 10, "cb": 3, "ptr": 3, "handle": 2, "hset": 3}

    def deptab(self, n, tag=""):
        def job():
            _, path = self.family(n, tag)
            out = os.path.join(self.work, f"dep-{n}{tag}.json")
            r = tlc(self.work, "DepTab", "DepTab", env={"PROFILES": path, "OUT": out})
            if not os.path.exists(out):
                raise CheckError("DepTab failed:\n" + r.text[-2000:])
        return job

    def walk_job(self, tasks, n, tag="", build="plain", env=None):
        """Walk a graph on real containers: one process."""
        def job():
            _, ppath = self.family(n, tag)
            dep = os.path.join(self.work, f"dep-{n}{tag}.json")
            d = tempfile.mkdtemp(dir=self.work, prefix="walk")
            tp, out = os.path.join(d, "tasks.json"), os.path.join(d, "out.ndjson")
            json.dump(tasks, open(tp, "w"))
            p = run_harness([self.builds_of(build), "walk", tp, ppath, dep if os.path.exists(dep) else "-", out], env)
            res, damaged = [], None
            for l in open(out, errors="replace") if os.path.exists(out) else []:
                try:
                    r = json.loads(l)
                    r["cfg"]["kind"], r["cfg"]["keys"], r["cfg"]["vals"], r["cfg"]["graph"], r["cfg"]["profile"], r["steps"], r["edges"], r["covered"], r["depexact"]
                    res.append(r)
                except (ValueError, LookupError, TypeError):     # written from damaged memory, or cut short
                    damaged = l[:500]
            if damaged is not None and p.returncode == 0:
                self.judge_diff("crash", f"{tasks[0]['kind']}: the memory of the process was damaged: its report reads {damaged}",
                                "walk", tasks[0], n, tag, [damaged], build)
            with self.lock:
                for r in res:
                    c = r["cfg"]
                    self.cover["walks"] += 1
                    self.cover["walk_steps"] += r["steps"]
                    self.cover["graph_edges"] += r["edges"]
                    self.cover["graph_edges_covered"] += r["covered"]
                    self.cover["depths_compared"] += r["depexact"]
                    self.cover["containers"].add(c["kind"])
                    self.profiles_used.add(c["profile"])
                    if len(self.samples) < 3 and r.get("sample"):
                        self.samples.append(f"walk of graph {os.path.basename(c['graph'])} on {c['kind']} "
                                            f"(keys {c['keys']}, values {c['vals']}, hashes {c['profile'] or 'true'}): ...{r['sample']}")
                self.traces += len(res)
            for r in res:
                for x in r.get("diffs", []):
                    self.judge_diff(x["tag"], f"{r['cfg']['kind']}: {x['what']}", "walk", r["cfg"], n, tag, x["hist"], build)
            if p.returncode != 0:
                if p.returncode in (9, -9) or len(res) >= len(tasks):
                    raise CheckError(f"walk ended with {p.returncode}: {p.stderr[-2000:]}")
                self.judge_diff("crash", f"{tasks[len(res)]['kind']}: the process died ({p.returncode}): " + last_lines(p.stderr),
                                "walk", sorted(tasks, key=lambda t: t["graph"])[len(res)], n, tag, [p.stderr[-4000:]], build)
        return job

    def builds_of(self, name):
        for k, b in self.builds.items():
            if k[0] == name:
                return b
        raise CheckError("no build " + name)

    def judge_diff(self, tag, what, kind, cfg, n, ptag, hist, build, where=""):
        if tag != "crash" and tag not in self.tags:
            return
        ps = [p for p in self.family(n, ptag)[0] if p["name"] in (cfg.get("profiles") or [cfg.get("profile")])]
        self.note_violation(kind, tag, what, dict(property=self.pid, what=what, tag=tag, run=kind, cfg=cfg, keys=n, family=ptag,
                                                  build=build, profiles=ps, history=hist))

    def walks(self, graph, which, steps, nprof, forms=None, vals=None, nest=False, build="plain", true_hash=True, tag="", env=None, watch=None):
        """Jobs that walk `graph` on the containers `which`, under nprof hash
        assignments each (all of them if None), in varying forms of keys and values."""
        n = self.GRAPH_N[graph]
        ps, _ = self.family(n, tag)
        jobs = []
        for kind in which:
            if not self.has_kind(kind):
                continue
            fl = list(ALL[kind]) if forms is None else forms
            names = prof.pick(self.rng, [p["name"] for p in ps if p["pre"] == 0], nprof)   # those deeper take too long here
            if true_hash:
                names.append("")
            k0 = self.rng.randrange(100)
            vs = vals or VALS
            tasks = []
            for i, nm in enumerate(names):
                v = vs[(i + k0) % len(vs)]
                tasks.append(dict(graph=self.graphs[graph], name=graph, kind=kind, keys=fl[(i + k0) % len(fl)], vals=v, nest=nest,
                                  profile=nm, steps=steps, seed=self.rng.randrange(1 << 30),
                                  mapvals=[0, 0 if v == "none" else 1 if v == "bool" else self.rng.randrange(1, 200)],
                                  watch=sorted(watch or self.tags)))
            jobs.append(self.walk_job(tasks, n, tag, build, env))
        return jobs

    # -- traces: histories of the real code judged by TLC
    def trace_job(self, c, n, tag="", build="plain", env=None, label=""):
        def job():
            ps, _ = self.family(n, tag)
            d = tempfile.mkdtemp(dir=self.work, prefix="trace")
            ppath = os.path.join(d, "prof.json")
            json.dump([p for p in ps if p["name"] in c["profiles"]], open(ppath, "w"))
            cp, out = os.path.join(d, "c.json"), os.path.join(d, "t.ndjson")
            json.dump(c, open(cp, "w"))
            p = run_harness([self.builds_of(build), "trace", cp, ppath, out], env)
            if p.returncode in (9, -9):
                raise CheckError(f"trace ended with {p.returncode}: {p.stderr[-2000:]}")
            if p.returncode != 0:
                hist = open(out).read().splitlines()[-300:]
                self.judge_diff("race" if "DATA RACE" in p.stderr else "crash", f"{c['kind']}: the process died ({p.returncode}): " + last_lines(p.stderr),
                                "trace", c, n, tag, hist + [p.stderr[-4000:]], build)
                if hist and not hist[-1].endswith("}"):     # cut short while writing
                    ls = open(out).read().splitlines()[:-1]
                    open(out, "w").write("\n".join(ls) + "\n")
            self.validate(c, n, tag, out, ppath, build)
            shutil.rmtree(d, ignore_errors=True)
        return job

    def validate(self, c, n, tag, out, ppath, build):
        r = tlc(self.work, "Trace", "Trace", env={"TRACE": out, "PROFILES": ppath}, heap="3g")
        m = re.search(r"CONSUMED (\d+) OF (\d+)", r.text)
        if not m or m.group(1) != m.group(2):
            raise CheckError("the trace could not be judged: " + r.text[r.text.find("Error:"):][:1500])
        events = int(m.group(2))
        lines = None
        segs = 0
        with open(out) as f:
            for l in f:
                segs += l.startswith('{"e":"reset"')
        with self.lock:
            self.cover["events"] += events
            self.cover["containers"].add(c["kind"])
            self.profiles_used.update(c.get("profiles") or [""])
            self.traces += segs
            self.states += r.distinct
            self.transitions += max(0, r.generated - 1)
            if len(self.samples) < 5:
                ls = open(out).read().splitlines()
                self.samples.append(f"history recorded from {c['kind']} (keys {c['keys']}, n={c['n']}), {events} events: " + " ".join(ls[len(ls) // 2:len(ls) // 2 + 6]))
        for t in r.lines("MISMATCH "):
            m = json.loads(t)
            for tg in m["tags"]:
                if tg != "crash" and tg not in self.tags:
                    continue
                if lines is None:
                    lines = open(out).read().splitlines()
                i = m["i"]
                lo = i - 1
                while lo > 0 and not lines[lo].startswith('{"e":"reset"'):
                    lo -= 1
                hist = lines[lo:i]
                if len(hist) > 1500:
                    hist = hist[:5] + ["..."] + hist[-1400:]
                self.judge_diff(tg, f"{c['kind']}: {json.dumps(m['ev'])}; the specification says {json.dumps(m['want'])}"
                                    + (f" (inside a callback of {m['cb']})" if m["cb"] else ""), "trace", c, n, tag, hist, build)

    def campaign(self, kind, keys, vals, n, nprof, segs, length, tag="", names=None, **kw):
        ps, _ = self.family(n, tag)
        if names is None:
            # a Hash that starts afresh for each count takes quadratic time
            slow = kind in ("Map/String", "Map/Bytes", "Set/String", "Set/Bytes") or keys in ("huge", "long")
            names = prof.pick(self.rng, [p["name"] for p in ps if p["pre"] < (8000 if slow else 1 << 20)], nprof)
        c = dict(kind=kind, keys=keys, vals=vals, n=n, handles=1, frames=0, ptrs=1, profiles=names, segments=segs, len=length,
                 seed=self.rng.randrange(1 << 30))
        c.update(kw)
        return c

    def traces_over(self, which, n, nprof, segs, length, tag="", forms=None, vals=None, build="plain", env=None, true_hash=False, **kw):
        jobs = []
        for kind in which:
            if not self.has_kind(kind):
                continue
            fl = WATCHED[kind] if forms is None else forms
            vs = vals or VALS
            c = self.campaign(kind, self.rng.choice(fl), self.rng.choice(vs), n, nprof, segs, length, tag,
                              names=[] if true_hash else None, **kw)
            jobs.append(self.trace_job(c, n, tag, build, env))
        return jobs

def last_lines(s, n=3):
    ls = [l for l in s.splitlines() if l.strip()]
    for i, l in enumerate(ls):
        if re.match(r"(fatal error|panic|runtime:|SIG|unexpected fault|checkptr|WARNING: DATA RACE)", l):
            return " / ".join(ls[i:i + n])
    return " / ".join(ls[-n:])

def run_harness(cmd, env=None, timeout=600):
    e = dict(os.environ, GOTRACEBACK="single", **(env or {}))
    try:
        return subprocess.run(cmd, env=e, capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired:
        raise CheckError("timeout: " + " ".join(cmd[:2]))

# ---- known findings

def known_findings(pid):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out

# ---- main

def finish(ctx):
    pid = ctx.pid
    rdir = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + "-"):
            os.unlink(os.path.join(rdir, f))
    known, fresh, seen = [], [], set()
    kf = known_findings(pid)
    for v in ctx.found:
        for rx, what in kf:
            if rx.search(v["what"]):
                known.append(what)
                break
        else:
            fresh.append(v)
    ctx.cover["hash_profiles"] = len(ctx.profiles_used - {""})
    ctx.cover["containers"] = sorted(ctx.cover["containers"])
    cov = dict(states=ctx.states, transitions=ctx.transitions, traces_validated_against_impl=ctx.traces,
               samples=ctx.samples or ["(none)"], **ctx.cover)
    if ctx.notes:
        cov["notes"] = ctx.notes
    ev = dict(property=pid, tier=ctx.tier, seed=ctx.seed, level="model_checking", coverage=cov,
              assumptions=ASSUMPTIONS, wall_s=round(time.time() - ctx.t0, 1), violations=len(fresh))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for w in sorted(set(known)):
        print(f"KNOWN-FINDING: property={pid} {w}")
    n = 0
    for v in fresh:
        key = (v["tag"], v["what"].split(":")[0])
        if key in seen or n >= 12:
            continue
        seen.add(key)
        n += 1
        path = os.path.join(rdir, f"{pid}-{n}.json")
        json.dump(v["replay"], open(path, "w"), indent=1)
        print(f"  {v['tag']}: {v['what'][:600]}")
        print(f"VIOLATION property={pid} replay={path}")
    ctx.log(f"{ctx.states} states, {ctx.transitions} transitions, {ctx.traces} histories, {len(fresh)} differences")
    return 1 if fresh else 0

ASSUMPTIONS = [
    "the Go toolchain and runtime, TLC, and the harness's own bookkeeping of keys and values are right",
    "hash/maphash is replaced by a copy in which final hashes can be programmed; the library uses it through its public API",
]

def replay(ctx, path):
    """Run the recorded configuration again and report what differs."""
    r = json.load(open(path))
    n, tag = r.get("keys"), r.get("family", "")
    import plans
    if r["run"] not in ("walk", "trace"):
        return plans.replay(ctx, r)
    plans.builds_for(ctx, r["build"])
    ctx.families[(n, tag)] = (r["profiles"], os.path.join(ctx.work, "prof.json"))
    json.dump(r["profiles"], open(os.path.join(ctx.work, "prof.json"), "w"))
    ctx.tags = EVERY | {r["tag"], "leakv", "leakk", "freed", "seed", "hashkey", "iter"}
    if r["run"] == "walk":
        c = dict(r["cfg"])
        g = c["name"]
        ctx.pool([ctx.graph(g)] + ([ctx.deptab(n, tag)] if r["profiles"] else []))
        c["graph"] = ctx.graphs[g]
        ctx.walk_job([c], n, tag, r["build"], plans.env_for(r["build"]))()
    else:
        ctx.trace_job(r["cfg"], n, tag, r["build"], plans.env_for(r["build"]))()
    return 0

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    ctx = Ctx(a.pid, a.tier, a.seed)
    try:
        import plans
        if a.replay:
            replay(ctx, a.replay)
            for v in ctx.found:
                print(f"  {v['tag']}: {v['what'][:800]}")
                for l in (v["replay"].get("history") or [])[-40:]:
                    print("     ", l)
            print("reproduced" if ctx.found else "not reproduced")
            return 1 if ctx.found else 0
        plans.PLANS[a.pid](ctx)
        return finish(ctx)
    except CheckError as e:
        print("ERROR", e)
        if ctx.found:       # a violation was found before the check broke down
            return finish(ctx)
        return 2
    except Exception:
        traceback.print_exc()
        return finish(ctx) if ctx.found else 2
    finally:
        shutil.rmtree(ctx.work, ignore_errors=True)

if __name__ == "__main__":
    sys.exit(main())
