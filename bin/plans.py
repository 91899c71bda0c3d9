"""What each property's check explores.  ctx.tags are the kinds of difference
(see spec/Trace.tla, harness/walk.go) that break the property."""
from check import *
import check as C

def env_for(build):
    return {"clobber": {"GODEBUG": "clobberfree=1,invalidptr=1"}, "checkptr": {}, "race": {"GORACE": "halt_on_error=1"}}.get(build)

FLAGS = {"plain": [], "clobber": [], "checkptr": ["-gcflags=all=-d=checkptr=2"], "race": ["-race"]}

def builds_for(ctx, *names):
    for n in names:
        ctx.build(n, tuple(FLAGS[n]))
    ctx.log("built:", ", ".join(names))

def prepare(ctx, tags, graphs=(), deptabs=(), models=(), builds=("plain",)):
    """Build, and run TLC on everything that does not need the build."""
    ctx.tags = set(tags) | {"crash"}
    builds_for(ctx, *builds)
    jobs = [ctx.graph(g) for g in graphs] + [ctx.deptab(n) for n in deptabs] + list(models)
    ctx.pool(jobs, 6)

def q(ctx, quick, thorough):
    return thorough if ctx.thorough else quick

# ---- models of the algorithm and of the interface

def hamt(ctx, *which, devs=()):
    """Instances of Hamt: the algorithm refines Amt and keeps its invariants."""
    out = []
    for w in which:
        out.append(ctx.model("MCHamt", "MCHamt_" + w, workers=2))
        if ctx.thorough:
            out.append(ctx.model("MCHamt", "MCHamt_" + w, workers=4, subst=[("NDigits=3", "NDigits=4")]))
    for d, w in devs:   # mistakes the model must reject
        out.append(ctx.model("MCHamt", "MCHamt_" + w, workers=1, dev=d, subst=[("Chunk=2", "Chunk=3")] if d == "SplitWrongIter" else []))
    return out

def amt(ctx, *which):
    return [ctx.model("MCAmt", "MCAmt_" + w, workers=2) for w in which]

MAPW = {"Set": 30, "Del": 25, "ModA": 12, "Get": 14, "Val": 6, "Ptr": 8, "Len": 2, "Dep": 1, "AllA": 1, "AllW": 1, "Refill": 1, "Sweep": 1}
SETW = {"Add": 30, "Del": 25, "Has": 25, "Len": 3, "Dep": 1, "AllA": 1, "Refill": 1, "Sweep": 1}
PTRW = {"Set": 20, "Del": 14, "ModA": 8, "Get": 10, "Ptr": 4, "Val": 4, "Keep": 10, "Load": 10, "Store": 8, "SamePtr": 6, "Forget": 2, "AllW": 1, "AllA": 1, "Mod": 4, "All": 1, "CbLoad": 6, "CbStore": 6, "CbKeep": 6}
CBW = {"Set": 12, "Del": 14, "ModA": 4, "Get": 20, "Val": 6, "Ptr": 6, "Len": 6, "Dep": 6, "AllA": 6, "Mod": 30, "All": 6, "CbLoad": 10, "CbStore": 8, "Sweep": 1}
CBSETW = {"Add": 12, "Del": 12, "Has": 20, "Len": 6, "Dep": 6, "AllA": 6, "All": 10}
HANDW = {"New": 4, "Copy": 8, "Drop": 3, "Set": 25, "Add": 25, "Del": 18, "ModA": 8, "Get": 14, "Has": 14, "Val": 4, "Ptr": 4, "Len": 4, "Dep": 3, "Nil": 4, "AllA": 3, "AllW": 1}
LOOKW = {"Set": 24, "Add": 24, "Del": 26, "ModA": 6, "Len": 8, "Dep": 10, "AllA": 8, "AllN": 3, "Detour": 3, "Refill": 2}
GCW = {"Set": 30, "Add": 30, "Del": 30, "ModA": 10, "AllW": 1, "gc": 4, "Refill": 1, "Sweep": 1}
NOOPW = {"Set": 10, "Add": 20, "Del": 30, "ModA": 2, "Get": 20, "Val": 5, "Ptr": 5, "Has": 20, "Len": 6, "Dep": 8, "AllA": 8, "Detour": 2}

CROWDW = {"Set": 12, "Add": 12, "Del": 12, "ModA": 4, "Get": 6, "Has": 6, "Len": 5, "Dep": 5, "AllA": 2, "AllN": 2, "AllW": 1, "Crowd": 8, "Seek": 3, "Detour": 1}
LOGW = {"Set": 6, "Add": 6, "Del": 8, "Len": 1, "Dep": 12, "Crowd": 14}
COMPW = {"Set": 6, "Add": 6, "Del": 6, "Crowd": 10, "Mem": 14}
MEMW = {"Set": 14, "Add": 14, "Del": 20, "ModA": 4, "Len": 1, "Dep": 1, "Crowd": 8, "Mem": 17, "Refill": 2}

def crowd_traces(ctx, which, segs=(2, 10), length=(30, 120), true_hash=(False, True), weights=CROWDW, size=69632, n=10, **kw):
    """Traces with many more keys than the model's (spec/Crowd.tla)."""
    jobs = []
    for th in true_hash:
        jobs += std_traces(ctx, which, n=(n,), segs=segs, length=length, weights=weights, true_hash=th, crowd=size, **kw)
    return jobs

def seg(ctx, q_, t_):
    return t_ if ctx.thorough else q_

def maps(ctx): return list(MAPS)
def sets(ctx): return list(SETS)

def std_walks(ctx, which, graph, steps=(60000, 400000), nprof=(5, None), **kw):
    return ctx.walks(graph, which, steps[ctx.thorough], nprof[ctx.thorough], **kw)

def std_traces(ctx, which, n=(12, 24), segs=(12, 60), length=(350, 500), nprof=(12, None), **kw):
    """n: the numbers of keys to use."""
    jobs = []
    for nn in n:
        ctx.family(nn)
        jobs += ctx.traces_over(which, nn, nprof[ctx.thorough], segs[ctx.thorough], length[ctx.thorough], **kw)
    return jobs

# ---- the plans

def many_traces(ctx, which, weights=CROWDW, length=(20, 60)):
    """Traces with close to a million keys."""
    return crowd_traces(ctx, which, segs=(1, 3), length=length, true_hash=(True,), weights=weights, size=983040, forms=["seq"], vals=["u64", "u8"])

def c01(ctx):
    prepare(ctx, {"look", "lookv"}, ["dict"], [6],
            hamt(ctx, "map", devs=[("DropValue", "map"), ("SplitWrongIter", "set"), ("SplitWrongKey", "map")]))
    ctx.pool(std_walks(ctx, maps(ctx), "dict") + std_traces(ctx, maps(ctx), weights=MAPW)
             + std_traces(ctx, maps(ctx), n=(40,), segs=(2, 10), weights=MAPW, true_hash=True)
             + crowd_traces(ctx, maps(ctx), segs=(1, 8)) + many_traces(ctx, C.CORE_MAPS))

def c02(ctx):
    prepare(ctx, {"has"}, ["set"], [10], hamt(ctx, "set", "int", devs=[("IntStaleTmap", "int"), ("SplitWrongIter", "set")]))
    ctx.pool(std_walks(ctx, sets(ctx), "set") + std_traces(ctx, sets(ctx), weights=SETW)
             + std_traces(ctx, sets(ctx), n=(40,), segs=(2, 10), weights=SETW, true_hash=True)
             + crowd_traces(ctx, sets(ctx), segs=(1, 8)) + many_traces(ctx, C.CORE_SETS))

def c03(ctx):
    prepare(ctx, {"len"}, ["dict", "set"], [], hamt(ctx, "map", devs=[("IntStaleTmap", "int")]))
    w = dict(LOOKW, Len=25, Dep=1)
    ctx.pool(std_walks(ctx, maps(ctx), "dict") + std_walks(ctx, sets(ctx), "set") + std_traces(ctx, list(ALL), n=(14,), weights=w)
             + std_traces(ctx, C.CORE_MAPS, n=(14,), segs=(3, 20), weights=CBW, frames=2)
             + crowd_traces(ctx, list(ALL), segs=(2, 10), weights=dict(CROWDW, Len=15))
             + many_traces(ctx, C.CORE_MAPS + C.CORE_SETS, dict(CROWDW, Len=15)))

def c04(ctx):
    prepare(ctx, {"all", "allv", "stop", "repeat", "key", "inst"}, ["dict", "set", "cb"], [],
            hamt(ctx, "set", devs=[("IntStaleTmap", "int")]))
    w = dict(LOOKW, AllA=30, AllN=12, AllW=4, Dep=1)
    ctx.pool(std_walks(ctx, maps(ctx), "dict") + std_walks(ctx, sets(ctx), "set") + std_walks(ctx, maps(ctx), "cb", nprof=(2, None))
             + std_traces(ctx, list(ALL), n=(14,), weights=w)
             + std_traces(ctx, C.CORE_MAPS + C.CORE_SETS, n=(20,), segs=(2, 20), weights=dict(w, All=12), frames=2)
             + crowd_traces(ctx, list(ALL), segs=(1, 8), weights=dict(CROWDW, AllA=10, AllN=8, AllW=2))
             + many_traces(ctx, C.CORE_MAPS + C.CORE_SETS, dict(CROWDW, AllA=10, AllN=8, AllW=2)))

def c05(ctx):
    prepare(ctx, {"order", "depref", "repeat"}, ["dict", "set"], [6, 10],
            hamt(ctx, "set", devs=[("CollapseOnce", "set"), ("NoCollapse", "set"), ("NoShrink", "set"), ("SplitDepDrift", "set"), ("CollapseDepDrift", "set")]))
    ctx.pool(std_walks(ctx, maps(ctx), "dict") + std_walks(ctx, sets(ctx), "set")
             + std_traces(ctx, list(ALL), n=(9, 16), segs=(4, 30), weights=dict(LOOKW, Detour=12, Refill=6))
             + crowd_traces(ctx, list(ALL), segs=(1, 8), weights=dict(CROWDW, AllA=8, Dep=10, Detour=3)))

def c06(ctx):
    prepare(ctx, {"dep"}, ["dict", "set"], [6, 10],
            hamt(ctx, "set", "int", devs=[("CollapseOnce", "set"), ("NoCollapse", "set"), ("SplitDepDrift", "set"), ("CollapseDepDrift", "set")]))
    w = dict(LOOKW, Dep=30, AllA=1)
    ctx.pool(std_walks(ctx, maps(ctx), "dict") + std_walks(ctx, sets(ctx), "set") + std_traces(ctx, list(ALL), n=(14,), weights=w)
             + std_traces(ctx, C.CORE_MAPS, n=(14,), segs=(3, 20), weights=CBW, frames=2)
             + crowd_traces(ctx, list(ALL), true_hash=(False,), segs=(2, 10), weights=dict(CROWDW, Dep=15)))

DEEP = ["edge16", "deep12", "deep15", "deep16", "deep17", "deep31", "deep33", "deep47", "deep64", "deep128", "deep240", "deep256", "deep4096", "deep65536", "wide16", "chains"]
def c07(ctx):
    prepare(ctx, CONTENT, ["dict", "set"], [],
            hamt(ctx, "set", "map", devs=[("NoRehash", "set"), ("SplitWrongIter", "set"), ("SplitWrongKey", "set"), ("IntStaleTmap", "int"), ("DropValue", "map")]))
    jobs = []
    for n in (6, 10, 12, 30):
        ps, _ = ctx.family(n, deepest=n < 30)
        ps[:] = [p for p in ps if p["name"].split("-")[0] in DEEP]
        json.dump(ps, open(ctx.family(n)[1], "w"))
    ctx.pool(std_walks(ctx, maps(ctx), "dict", nprof=(6, None), true_hash=False) + std_walks(ctx, sets(ctx), "set", nprof=(6, None), true_hash=False)
             + std_traces(ctx, list(ALL), n=(12, 30), segs=(5, 40), weights=None))

def c08(ctx):
    prepare(ctx, {"modcalls", "modex", "modold", "look", "lookv", "all", "allv", "len"}, ["dict", "cb"], [],
            hamt(ctx, "map", devs=[("SplitWrongKey", "map"), ("ModEarly", "map")]))
    w = {"ModA": 40, "Mod": 10, "Set": 8, "Del": 25, "Get": 12, "Val": 4, "Ptr": 4, "Len": 3, "AllA": 2, "CbLoad": 4, "CbStore": 6, "Sweep": 1}
    ctx.pool(std_walks(ctx, maps(ctx), "dict") + std_walks(ctx, maps(ctx), "cb", nprof=(3, None))
             + std_traces(ctx, maps(ctx), weights=w, frames=2))

def c09(ctx):
    prepare(ctx, {"ptr", "ptrv", "lookv", "allv", "cbv", "look"}, ["ptr", "cb"], [], amt(ctx, "ptr") + hamt(ctx, "map"))
    ctx.pool(std_walks(ctx, maps(ctx), "ptr", nprof=(4, None)) + std_walks(ctx, maps(ctx), "cb", nprof=(2, None))
             + std_traces(ctx, maps(ctx), n=(8, 20), weights=PTRW, frames=2, ptrs=6)
             + std_traces(ctx, C.CORE_MAPS, n=(12,), segs=(2, 12), weights=dict(PTRW, gc=3), frames=2, ptrs=6, gcstress=True, vals=["obj", "box", "any", "str"]))

def c10(ctx):
    prepare(ctx, {"key", "look", "has", "all", "len"}, ["dict", "set"], [], hamt(ctx, "int", devs=[("IntStaleTmap", "int")]))
    jobs = []
    for kind, fl in ALL.items():
        for f in fl:
            jobs += std_walks(ctx, [kind], "set" if "Set" in kind else "dict", steps=(40000, 300000), nprof=(2, None), forms=[f])
            jobs += std_traces(ctx, [kind], n=(21,), segs=(1, 14), nprof=(1, None), forms=[f], weights=dict(LOOKW, AllA=10, Get=10, Has=10, Sweep=3, Len=5))
            jobs += std_traces(ctx, [kind], n=(60,), segs=(1, 6), length=(250, 800), forms=[f], weights=dict(LOOKW, AllA=4, Sweep=2), true_hash=True)
        if "Custom" not in kind: # keys that differ in one bit
            jobs += std_traces(ctx, [kind], n=(70,), segs=(1, 4), length=(350, 800), forms=["bits"], weights=dict(LOOKW, AllA=4, Sweep=4), true_hash=True)
    ctx.pool(jobs)

def c11(ctx):
    prepare(ctx, CONTENT | SHAPE | {"nil", "race"}, ["handle", "hset"], [], amt(ctx, "handle"), builds=("plain", "race"))
    both = list(ALL)
    kw = dict(build="race", env=env_for("race"), workers=6, handles=6, scratch=True)
    ctx.pool(ctx.walks("handle", maps(ctx), q(ctx, 60000, 300000), q(ctx, 2, None)) + ctx.walks("hset", sets(ctx), q(ctx, 60000, 300000), q(ctx, 2, None))
             + ctx.walks("handle", maps(ctx), q(ctx, 30000, 200000), q(ctx, 1, None), nest=True) + ctx.walks("hset", sets(ctx), q(ctx, 30000, 200000), q(ctx, 1, None), nest=True)
             + std_traces(ctx, both, n=(8,), segs=(4, 30), weights=HANDW, handles=5, startnil=True)
             + std_traces(ctx, both, n=(8,), segs=(2, 20), weights=HANDW, handles=4, nest=True)
             + std_traces(ctx, both, n=(8,), segs=(6, 40), length=(80, 120), weights=APARTW, **kw)
             + std_traces(ctx, both, n=(24,), segs=(2, 10), length=(80, 120), weights=APARTW, true_hash=True, **kw)
             + crowd_traces(ctx, both, segs=(1, 8), length=(30, 90), weights=dict(APARTW, Crowd=6), size=4096, **kw))

def c12(ctx):
    prepare(ctx, {"nil"}, ["handle", "hset"], [], amt(ctx, "handle"))
    w = dict(HANDW, Drop=12, Nil=15, Mod=6, All=6, AllN=3)
    ctx.pool(ctx.walks("handle", maps(ctx), q(ctx, 60000, 300000), q(ctx, 2, None)) + ctx.walks("hset", sets(ctx), q(ctx, 60000, 300000), q(ctx, 2, None))
             + std_traces(ctx, list(ALL), n=(8,), segs=(4, 30), weights=w, handles=4, startnil=True, frames=2))

def c13(ctx):
    prepare(ctx, EVERY, ["cb"], [3], amt(ctx, "ptr") + hamt(ctx, "map", devs=[("ModEarly", "map")]))
    ctx.pool(std_walks(ctx, maps(ctx), "cb", nprof=(8, None))
             + std_traces(ctx, maps(ctx), n=(8, 16), segs=(6, 40), weights=CBW, frames=3))

def watch_forms(kind):
    """The form of keys whose release can be observed, if there is one."""
    l = C.WATCHED[kind]
    return ["heap"] if l == C.STRK else ["live"] if l == C.CUSK else l

PARW = {"Par": 30, "Set": 12, "Add": 12, "Del": 12, "ModA": 4, "Refill": 1, "Detour": 1}
APARTW = {"Par": 30, "Set": 6, "Add": 6, "Del": 8, "New": 6, "Copy": 3, "Drop": 1, "Refill": 2}
def c14(ctx):
    prepare(ctx, CONTENT | SHAPE | {"race", "nil"}, ["dict"], [], readers(ctx), builds=("race",))
    both = list(ALL)
    kw = dict(build="race", env=env_for("race"), workers=4)
    ctx.pool(std_traces(ctx, both, n=(12, 24), segs=(5, 40), length=(60, 90), weights=PARW, **kw)
             + std_traces(ctx, both, n=(8,), segs=(4, 30), length=(60, 90), weights=dict(PARW, Copy=4, Drop=1, New=2), handles=3, startnil=False, **kw)
             + std_traces(ctx, both, n=(8,), segs=(2, 20), length=(60, 90), weights=PARW, handles=2, nest=True, **kw)
             + std_traces(ctx, both, n=(30,), segs=(2, 10), length=(60, 90), weights=PARW, true_hash=True, **kw)
             + crowd_traces(ctx, both, segs=(1, 8), length=(30, 90), weights=dict(PARW, Crowd=6), size=4096, **kw))

def readers(ctx):
    out = [ctx.model("Readers", "Readers", workers=1)]
    if ctx.thorough:
        out.append(ctx.model("Readers", "Readers", workers=4, subst=[("{p1, p2}", "{p1, p2, p3}")]))
    return out + [ctx.model("Readers", "Readers", workers=1, dev=d) for d in ("Memo", "LazyDep", "LazyTidy", "SharedBuf", "CopyFirst")]

def c15(ctx):
    prepare(ctx, {"leakv", "leakk"}, [], [], hamt(ctx, "map", "set", devs=[("StaleTail", "set"), ("StalePath", "set")]))
    jobs = []
    for kind in C.WATCHED:
        if "Set" in kind and watch_forms(kind) == C.WATCHED[kind] and kind != "ArrSetP":
            continue     # nothing to observe
        jobs += std_traces(ctx, [kind], n=(10, 24), segs=(4, 30), length=(250, 400), forms=watch_forms(kind), vals=["obj", "box"],
                           watch=True, weights=GCW)
    ctx.pool(jobs)

def c16(ctx):
    prepare(ctx, CONTENT | {"freed"}, ["dict", "set"], [], hamt(ctx, "int", "map"), builds=("plain", "clobber", "checkptr"))
    jobs = []
    vals = ["obj", "box", "any", "str"]
    for kind in C.WATCHED:
        jobs += std_traces(ctx, [kind], n=(16,), segs=(2, 16), forms=watch_forms(kind), vals=vals, weights=dict(GCW, gc=6, Get=10, Has=10, AllA=3), gcstress=True, watch=True,
                           build="clobber", env=env_for("clobber"))
        if kind in ALL:
            jobs += ctx.walks("set" if "Set" in kind else "dict", [kind], q(ctx, 15000, 100000), q(ctx, 3, None), forms=watch_forms(kind), vals=vals, build="checkptr")
    jobs += std_traces(ctx, list(ALL), n=(24,), segs=(3, 30), length=(250, 400), weights=dict(LOOKW, AllA=3), build="checkptr")
    jobs += crowd_traces(ctx, list(ALL), segs=(2, 16), size=4096, build="checkptr")
    ctx.pool(jobs)

def hash_job(ctx):
    def job():
        d = tempfile.mkdtemp(dir=ctx.work, prefix="hash")
        out = os.path.join(d, "h.ndjson")
        seed = ctx.rng.randrange(1 << 30)
        p = C.run_harness([ctx.builds_of("plain"), "hash", str(seed), ctx.tier, out])
        if p.returncode != 0:
            if p.returncode in (9, -9):
                raise CheckError("hash: " + p.stderr[-1000:])
            ctx.note_violation("hash", "crash", "a key helper crashed: " + C.last_lines(p.stderr), dict(run="hash", tag="crash", seed=seed, history=[p.stderr[-3000:]]))
            return
        r = tlc(ctx.work, "HashTrace", "HashTrace", env={"TRACE": out}, heap="4g")
        m = re.search(r"CONSUMED (\d+) OF (\d+)", r.text)
        if not m or m.group(1) != m.group(2):
            raise CheckError("hash observations could not be judged: " + r.text[-1500:])
        ls = [json.loads(l) for l in open(out)]
        ctx.traces += len(ls)
        ctx.cover["hash_calls"] = ctx.cover.get("hash_calls", 0) + sum(len(l["obs"]) for l in ls)
        ctx.samples.append("hash observations [content, seed, count, hash] of " + "; ".join(f"{l['helper']}: {l['obs'][:2]}" for l in ls))
        what = {"function": "one content, seed and count gave two hashes", "keys": "two keys gave one hash", "seeds": "two seeds gave one hash",
                "counts": "two rehash counts gave one hash", "equal": "Equal is not equality of content", "stuck": "a call did not return"}
        for t in r.lines("MISMATCH "):
            x = json.loads(t)
            ctx.note_violation("hash", x["tag"], f"{x['helper']}.{x['tag']}: {what[x['tag']]}: {json.dumps(x['ev'])}",
                               dict(property=ctx.pid, run="hash", tag=x["tag"], helper=x["helper"], seed=seed, history=[json.dumps(x["ev"])]))
        ctx.log(f"helpers: {len(ls)}, calls: {ctx.cover['hash_calls']}")
    return job

HELPDEV = ("Wrap", "SeedLost", "Prefix", "Instance", "Count", "Padded")
def c17(ctx):
    prepare(ctx, CONTENT | {"helper"}, ["dict", "set"], [], [ctx.model("HashFn", "HashFn", workers=2)] + [ctx.model("HashFn", "HashFn", workers=1, dev=d) for d in HELPDEV])
    ks = [c + "/" + k for c in ("Map", "Set") for k in ("Int", "String", "Bytes")]
    jobs = [hash_job(ctx)] + ([hash_job(ctx) for _ in range(7)] if ctx.thorough else [])
    for k in ks:
        jobs += ctx.walks("set" if "Set" in k else "dict", [k], q(ctx, 60000, 300000), q(ctx, 6, None))
    ctx.pool(jobs + std_traces(ctx, ks, n=(12, 30), segs=(4, 30), weights=None) + std_traces(ctx, ks, n=(60,), segs=(2, 10), weights=None, true_hash=True))

def replay(ctx, r):
    """Runs other than walks and traces."""
    if r["run"] == "build":
        ctx.tags = {"helper"}
        builds_for(ctx, "plain")
        return 0
    builds_for(ctx, "plain")
    class Fixed:
        def randrange(self, n): return r["seed"]
    ctx.rng = Fixed()
    hash_job(ctx)()
    return 0

def c18(ctx):
    prepare(ctx, CONTENT | {"seed", "hashkey", "iter", "inst"}, ["dict", "set"], [], hamt(ctx, "set"))
    cus = ["Map/Custom", "Set/Custom"]
    ctx.pool(std_walks(ctx, ["Map/Custom"], "dict", nprof=(14, None)) + std_walks(ctx, ["Set/Custom"], "set", nprof=(14, None))
             + std_traces(ctx, cus * 2, n=(8, 20), segs=(10, 60), nprof=(None, None), weights=None, hashlog=True)
             + std_traces(ctx, cus, n=(8,), segs=(4, 30), nprof=(None, None), weights=HANDW, handles=3, hashlog=True)
             + std_traces(ctx, ["Map/Custom"], n=(8,), segs=(8, 30), nprof=(None, None), weights=CBW, frames=2))

def c19(ctx):
    prepare(ctx, CONTENT | SHAPE | {"inst"}, ["dict", "set"], [6, 10], hamt(ctx, "set", devs=[("StalePath", "set")]) + amt(ctx, "ptr"))
    ctx.pool(std_walks(ctx, maps(ctx), "dict", nprof=(3, None)) + std_walks(ctx, sets(ctx), "set", nprof=(3, None))
             + std_traces(ctx, list(ALL), n=(8, 20), segs=(3, 30), weights=NOOPW))

def c20(ctx):
    prepare(ctx, {"mem", "residue"}, [], [], hamt(ctx, "set", devs=[("NoShrink", "set"), ("NoCollapse", "set"), ("CollapseOnce", "set"), ("StaleTail", "set")]) + [ctx.model("MCCrowd", "MCCrowd", workers=1)])
    # not with entries below 16 bytes without pointers: the runtime packs those into shared blocks
    ctx.pool(crowd_traces(ctx, [k for k in ALL if k not in ("ArrSet4", "Set/Int")], segs=(3, 16), length=(30, 120), weights=MEMW, handles=2, vals=["obj", "box", "big"]))

def c21(ctx):
    prepare(ctx, {"logdep"}, [], [], [ctx.model("MCCrowd", "MCCrowd", workers=1)])
    jobs = []
    for kind, fl in ALL.items():
        if kind.endswith("/Custom"):
            continue    # hashed by the client
        for f in fl:
            jobs += std_traces(ctx, [kind], n=(10,), segs=(2, 12), length=(40, 120), forms=[f], weights=LOGW, true_hash=True, crowd=69632)
    ctx.pool(jobs + many_traces(ctx, [k for k in C.CORE_MAPS + C.CORE_SETS if not k.endswith("/Custom")], LOGW))

TWINW = {"Twin": 8, "Many": 4, "New": 4, "Copy": 1, "Set": 6, "Add": 6, "Del": 6, "AllA": 1}
def c22(ctx):
    prepare(ctx, {"twin", "seed"}, [], [], [ctx.model("Seeds", "Seeds", workers=2)] + [ctx.model("Seeds", "Seeds", workers=1, dev=d) for d in ("OneSeed", "Reuse", "PerCall", "FirstKeys")])
    ctx.pool(std_traces(ctx, list(ALL), n=(24,), segs=(8, 60), length=(60, 150), weights=TWINW, handles=4, true_hash=True)
             + std_traces(ctx, ["Map/Custom", "Set/Custom"], n=(24,), segs=(12, 60), length=(80, 150), weights=TWINW, handles=4, true_hash=True, hashlog=True))

def c23(ctx):
    prepare(ctx, {"compact"}, [], [], [ctx.model("MCCrowd", "MCCrowd", workers=1)])
    ctx.pool(crowd_traces(ctx, [k for k in ALL if k not in ("ArrSet4", "Set/Int")], segs=(3, 16), length=(15, 80), weights=COMPW, handles=2, vals=["obj", "box", "big"]))

PLANS = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11, C12=c12,
             C13=c13, C14=c14, C15=c15, C16=c16, C17=c17, C18=c18, C19=c19, C20=c20, C21=c21, C22=c22, C23=c23)
