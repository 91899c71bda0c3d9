#!/usr/bin/env python3
"""The table ExpSlots of spec/Crowd.tla: for n keys with random digits in base
16, the expected number of places in all arrays but the root's, with arrays in
blocks of 4.  A node at depth d >= 1 exists for each prefix of d digits that two
or more keys share; it has a place for every next digit, rounded up to 4.
Prints the table, or with an argument checks it against simulated tries."""
import random, sys
from math import lgamma, log, log1p, exp, sqrt

NS = sorted({size // s for size in (69632, 12288, 4096, 768) for s in
             (1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096) if size % (s * 2) == 0 and size // s >= 16})

def blocks(c): return (c + 3) // 4 * 4

def distinct(K, B=16):
    """Expected room of a node with k keys below it, for k = 0..K."""
    p, out = [0.0] * (B + 1), []
    p[0] = 1.0
    for k in range(K + 1):
        out.append(sum(blocks(c) * p[c] for c in range(B + 1)) if k > 1 else 0.0)
        p = [p[c] * c / B + (p[c - 1] * (B - c + 1) / B if c else 0) for c in range(B + 1)]
    return out

def expected(n):
    room, total = distinct(min(n, 12000)), 0.0
    for d in range(1, 14):
        q, N = 16.0 ** -d, 16.0 ** d
        m, s = n * q, sqrt(n * q) + 1
        for k in range(max(2, int(m - 12 * s)), min(n, int(m + 12 * s) + 8) + 1):
            pr = exp(lgamma(n + 1) - lgamma(k + 1) - lgamma(n - k + 1) + k * log(q) + (n - k) * log1p(-q))
            total += N * pr * (room[k] if k < len(room) else 16)
    return total

def simulated(n, rnd):
    def node(ks, d):
        by = {}
        for k in ks:
            by.setdefault(k >> 4 * d & 15, []).append(k)
        return (blocks(len(by)) if d else 0) + sum(node(x, d + 1) for x in by.values() if len(x) > 1)
    return node([rnd.getrandbits(64) for _ in range(n)], 0)

if len(sys.argv) > 1:
    rnd = random.Random(1)
    for n in NS:
        xs = [simulated(n, rnd) for _ in range(20)]
        print(n, round(expected(n)), round(sum(xs) / 20), "from", min(xs), "to", max(xs))
else:
    print(" @@ ".join(f"{n} :> {round(expected(n))}" for n in NS))
