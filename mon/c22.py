"""Random generators stay in range and canonical, for every value the random source can deliver.

Two builds: the real random source, and a scripted stand-in for the `rand` crate that injects chosen words (zeros,
all ones, chosen limbs), so that events of probability 2^-32 are driven on purpose."""
import os, subprocess, time
from .core import Case, want_if, want, build_scripted, Inconclusive
from .gen import *

BATCH = 100


def u_ok(n):
    def p(t):
        v = [int(x, 16) for x in t.strip("[]").split(",") if x]
        if n == 0:
            return all(x == 0 for x in v)
        return all(1 <= x < 1 << (32 * n) for x in v) and "!" not in t and (len(v) < 40 or len(set(v)) > 1)
    return p


def b_ok(n):
    def p(t):
        v = [int(x, 16) for x in t.strip("[]").split(",") if x]
        if n == 0:
            return all(x == 0 for x in v)
        return all(1 <= abs(x) < 1 << (32 * n) for x in v) and "!" not in t and (len(v) < 64 or (any(x > 0 for x in v) and any(x < 0 for x in v)))
    return p


def r_ok(t):
    if "!" in t:
        return False
    v = [x.split("/") for x in t.replace(";", ",").strip("[]").split(",") if x]
    v = [(int(a, 16), int(b, 16)) for a, b in v]
    return all(0 < a < b and gcd(a, b) == 1 for a, b in v) and (len(v) < 30 or len(set(v)) > 1)


def workload(rng, tier, shard, nshards):
    n = 750 if tier == "quick" else 9000
    for _ in range(n):
        k = rng.choice([0, 1, 1, 1, 2, 3, 4, 8, 33, rng.randrange(1, 80)])
        cnt = rng.choice([1, 20, 100, 300])
        yield Case("u.random", [str(k), str(cnt)], want_if(u_ok(k), "integers from 1 to 2^(32*scale)-1, canonical, not all equal"), "real source")
        yield Case("b.random", [str(k), str(cnt)], want_if(b_ok(k), "non-zero integers below 2^(32*scale) in magnitude, both signs, canonical"), "real source")
        yield Case("r.random", [str(cnt)], want_if(r_ok, "reduced rationals strictly between 0 and 1"), "real source")
        r, c = rng.randrange(1, 7), rng.randrange(1, 7)
        yield Case("m.random", [str(r), str(c)], want_if(lambda t, r=r, c=c: r_ok(t.split(" ")[0]), "cells strictly between 0 and 1"), "real source")


def script(rng, n):
    k = rng.randrange(7)
    if k == 0:
        return [0] * n
    if k == 1:
        return [MASK] * n
    if k == 2:
        return [0] * (n - 1) + [rng.choice([0, 1, MASK])]
    if k == 3:
        return [rng.getrandbits(32)] + [0] * (n - 1)
    if k == 4:
        return [rng.choice([0, 0, 1, 2, MASK, MASK - 1, 1 << 31]) for _ in range(n)]
    if k == 5:
        return [1] + [0] * (n - 1)
    return [rng.choice([0, rng.getrandbits(32)]) for _ in range(n)]


def extra(tier, seed, bins, tmp):
    """the scripted source"""
    import random
    rng = random.Random(f"{seed}/C22/scripted")
    try:
        binp = build_scripted()
    except Inconclusive as ex:
        # the code under test uses more of the random source than the stand-in offers: only the real source was observed
        return [], [], {"scripted_source": "not available: " + str(ex)[-300:]}
    n = 4000 if tier == "quick" else 60000
    viols, seen = [], 0
    lines = []
    for _ in range(n):
        k = rng.choice([0, 1, 1, 2, 3, 4, 5, 9, rng.randrange(1, 40)])
        w = rng.choice(["u", "b", "r", "m"])
        if w in "rm":
            k = 4
        m = script(rng, max(1, k) + 2)
        lines.append((w, k, m, f"{w} {k} " + ",".join(map(str, m))))
    p = subprocess.run([binp], input="\n".join(l[3] for l in lines) + "\n", capture_output=True, text=True, timeout=600)
    out = p.stdout.split("\n")
    zeros = 0
    for i, (w, k, m, l) in enumerate(lines):
        if i >= len(out) or not out[i]:
            if p.returncode == 0:
                return viols, ["scripted source: output ends early"], {"scripted_source": seen}
            viols.append(dict(op=w + ".random", line="scripted " + l, got=f"process died, exit {p.returncode}: {p.stderr[-300:]}", why="expected a number", profile="scripted", cls="scripted source"))
            break
        seen += 1
        zeros += 0 in m
        t = out[i]
        try:
            ok = not t.startswith("PANIC") and {"u": u_ok(k), "b": b_ok(k), "r": r_ok, "m": r_ok}[w](t)
        except ValueError:
            ok = False
        if not ok:
            viols.append(dict(op=w + ".random", line="scripted " + l, got=t[:600], why="expected a canonical number in the documented range for these random words", profile="scripted", cls="scripted source"))
            if len(viols) > 4:
                break
    return viols, [], {"scripted_source_calls": seen, "scripted_calls_with_a_zero_word": zeros}
