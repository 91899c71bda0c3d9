"""Hash assignments ("profiles"): for each key the 4-bit digits its successive
64-bit hashes provide, lowest digit first; 16 digits per hash."""
import random

def gen(rng, n, name, plan, jump, wide=0.3, start=0, room=96):
    """A random trie over keys 1..n.  plan: chain lengths to choose from before
    each split; jump: probability of jumping to the next rehash boundary
    (just before, at, or just after it)."""
    ND = -(-(start // 2 + room) // 16) * 16 if start < 96 else -(-(start + 64) // 16) * 16   # digits given per key, in whole hashes
    D = [[None] * ND for _ in range(n)]
    def put(ks, d, digit):
        for k in ks:
            D[k][d] = digit
    def forced(ks, d):
        # key 1 may be the empty key, whose rehashes all equal its hash
        return D[0][d - 16] if 0 in ks and d >= 16 else None
    def go(ks, d):
        if d >= ND - 4:
            # must split here: give every key its own path
            pass
        if len(ks) == 1:
            for e in range(d, ND):
                f = forced(ks, e)
                D[ks[0]][e] = rng.randrange(16) if f is None else f
            return
        chain = rng.choice(plan)
        if rng.random() < jump:
            b = (d // 16 + 1) * 16 + rng.choice([-1, 0, 0, 1])
            if b + 8 < ND:
                chain = max(0, b - d)
        chain = min(chain, max(0, ND - 8 - d))
        for e in range(d, d + chain):
            f = forced(ks, e)
            put(ks, e, rng.randrange(16) if f is None else f)
        d += chain
        nb = min(len(ks), 16)
        if nb > 2:
            nb = nb if rng.random() < wide else rng.randrange(2, nb + 1)
        f = forced(ks, d)
        digs = rng.sample(range(16), nb)
        if f is not None and f not in digs:
            digs[0] = f
        # contiguous groups
        cuts = sorted(rng.sample(range(1, len(ks)), nb - 1))
        groups = [ks[a:b] for a, b in zip([0] + cuts, cuts + [len(ks)])]
        rng.shuffle(digs)
        if f is not None:
            i = digs.index(f)
            digs[0], digs[i] = digs[i], digs[0]     # key 1 is in the first group
        for g, x in zip(groups, digs):
            put(g, d, x)
            go(g, d + 1)
    # `start` digits shared by all
    if start:
        for e in range(start):
            f = D[0][e - 16] if e >= 16 else None
            put(range(n), e, rng.randrange(16) if f is None else f)
    go(list(range(n)), start)
    for k in range(1, n):
        for e in range(ND):
            if D[k][e] is None:
                D[k][e] = rng.randrange(16)
    assert len({tuple(x) for x in D}) == n
    return {"name": name, "n": n, "pre": 0, "digits": D}

def abyss(rng, n, name, pre):
    """Keys that share pre (a multiple of 16) digits before those listed: whole hashes, all alike."""
    return dict(gen(rng, n, name, [0, 0, 1], 0.3, start=rng.choice([16, 17, 30, 31, 32])), pre=pre)

def lcp(a, b):
    i = 0
    while i < len(a) and i < len(b) and a[i] == b[i]:
        i += 1
    return i

def stats(p):
    D = p["digits"]
    l = [lcp(D[i], D[j]) for i in range(len(D)) for j in range(i)]
    return {"name": p["name"], "keys": p["n"], "deepest": p["pre"] + max(l or [0]),
            "rehash_pairs": sum(p["pre"] + x >= 16 for x in l), "pairs": len(l)}

def family(seed, n, tag="", deepest=False):
    """A varied family of profiles over n keys."""
    rng = random.Random(f"{seed}/{n}/{tag}")
    out = []
    def add(name, **kw):
        out.append(gen(rng, n, f"{name}-{n}{tag}", **kw))
    add("flat", plan=[0], jump=0, wide=0.8)
    add("shallow", plan=[0, 0, 1, 2], jump=0)
    add("bushy", plan=[0, 0, 0, 1], jump=0.05, wide=0.9)
    add("chains", plan=[0, 1, 2, 3, 5, 8, 11, 12, 13], jump=0.1)
    add("edge16", plan=[0, 0, 1], jump=0.6)
    add("deep12", plan=[0, 1], jump=0.15, start=12)
    add("deep15", plan=[0, 0, 1], jump=0.2, start=15)
    add("deep16", plan=[0, 0, 1], jump=0.2, start=16)
    add("deep17", plan=[0, 0, 2], jump=0.3, start=17)
    add("deep31", plan=[0, 0, 1], jump=0.2, start=31)
    add("deep33", plan=[0, 1, 3], jump=0.3, start=33)
    add("deep47", plan=[0, 0, 1], jump=0.2, start=47)
    add("deep64", plan=[0, 0, 1], jump=0.2, start=63)
    add("deep128", plan=[0, 0, 1], jump=0.2, start=rng.choice([126, 127, 128, 129]))
    add("deep240", plan=[0, 0, 1], jump=0.3, start=rng.choice([238, 239, 240, 241]))
    add("deep256", plan=[0, 0, 1], jump=0.3, start=rng.choice([254, 255, 256, 257, 271, 272]))
    out.append(abyss(rng, n, f"deep4096-{n}{tag}", rng.choice([4064, 4080, 4096])))
    if deepest:
        out.append(abyss(rng, n, f"deep65536-{n}{tag}", rng.choice([65504, 65520, 65536])))
    add("wide16", plan=[0], jump=0.0, wide=1.0, start=16)
    add("wide3", plan=[0], jump=0.0, wide=1.0, start=3)
    return out

STRATA = [["flat", "shallow", "bushy"], ["wide3", "wide16"], ["edge16", "deep15", "deep16", "deep17"],
          ["chains", "deep12", "deep31", "deep33", "deep47", "deep64"], ["deep128", "deep240", "deep256", "deep4096", "deep65536"]]

def pick(rng, names, n):
    """n of the names, from all strata in turn."""
    if n is None or n >= len(names):
        return list(names)
    out = []
    pools = [[x for x in names if x.split("-")[0] in s] for s in STRATA]
    for q in pools:
        rng.shuffle(q)
    rest = pools[2:]
    rng.shuffle(rest)
    pools = [pools[1]] + rest[:2] + [pools[0]] + rest[2:] if n >= 4 else rng.sample(pools, len(pools))
    while len(out) < n:
        for q in pools:
            if q and len(out) < n:
                out.append(q.pop())
    return out

if __name__ == "__main__":
    import sys, json
    for n in (1, 2, 3, 5, 8, 24, 64):
        for p in family(1, n):
            print(stats(p))
