"""Canonical representation, equality and hashing over histories of in-place operations."""
from fractions import Fraction
from .core import Case, want, want_if
from .gen import *
from .c02 import tdiv, trem


def limbs(a):
    return max(1, (abs(a).bit_length() + 31) // 32)


def hist_int(rng, kind, nsteps, cap):
    """a history over 2..4 live registers; the model is Python's integers"""
    signed = kind == "b"
    regs = [uint(rng, rng.choice([1, 2, 4, cap])) for _ in range(rng.randrange(2, 5))]
    if signed:
        regs = [sgn(rng, x) for x in regs]
    start = "[" + ",".join(map(hx, regs)) + "]"
    steps, outs = [], []
    ops = ["add", "sub", "sub", "mul", "div", "rem", "add32", "sub32", "mul32", "div32", "rem32", "mulp2", "shl", "shr", "slice", "pow", "mov"]
    ops += ["neg", "abs", "neg"] if signed else ["absd", "gcd", "sqrt"]
    tries = 0
    while len(steps) < nsteps and tries < nsteps * 6:
        tries += 1
        op = rng.choice(ops)
        d = rng.randrange(len(regs))
        a = regs[d]
        big = limbs(a) > cap
        n = rng.randrange(len(regs))
        s = regs[n]
        w = i32(rng) if signed else u32(rng)
        sg = -1 if a < 0 else 1
        m = abs(a)
        if op == "add": v = a + s
        elif op == "sub":
            if not signed and a < s:
                continue
            v = a - s
        elif op == "mul":
            if big or limbs(s) > cap: continue
            v = a * s
        elif op in ("div", "rem"):
            if s == 0: continue
            v = tdiv(a, s) if op == "div" else trem(a, s)
        elif op == "add32": v = a + w; n = w
        elif op == "sub32":
            # often subtract exactly the value, so that limbs vanish
            if rng.random() < .3 and m < 2 ** 31: w = a
            if not signed and a < w: continue
            v = a - w; n = w
        elif op == "mul32":
            if big: continue
            v = a * w; n = w
        elif op in ("div32", "rem32"):
            if w == 0: continue
            v = tdiv(a, w) if op == "div32" else trem(a, w); n = w
        elif op == "mulp2":
            if big: continue
            n = rng.choice([0, 1, 31, 32, 33, 64, rng.randrange(130)]); v = a << n if a >= 0 else -((-a) << n)
        elif op == "shl":
            if big: continue
            n = rng.randrange(4); v = sg * (m << (32 * n))
        elif op == "shr": n = rng.randrange(limbs(a) + 2); v = sg * (m >> (32 * n))
        elif op == "slice": n = rng.randrange(limbs(a) + 1); v = sg * (m & ((1 << (32 * n)) - 1))
        elif op == "pow":
            n = rng.randrange(4)
            if limbs(a) * n > cap: n = rng.randrange(2)
            v = a ** n
        elif op == "mov": v = s
        elif op == "neg": v = -a
        elif op == "abs": v = m
        elif op == "absd": v = abs(a - s)
        elif op == "gcd": v = gcd(a, s)
        elif op == "sqrt": v = isqrt(a)
        if not signed and n < 0: continue
        steps.append(f"{op}:{d}:{n}")
        regs[d] = v
        outs.append(hx(v))
    return Case(kind + ".hist", [start, ",".join(steps)], want(",".join(outs)), "history") if steps else None


def hist_ratio(rng, nsteps, cap):
    regs = [frac(rng, rng.choice([1, 2, 3])) for _ in range(rng.randrange(2, 5))]
    start = "[" + ",".join(map(rx, regs)) + "]"
    steps, outs = [], []
    ops = ["add", "sub", "sub", "mul", "mul", "div", "div", "addbi", "subbi", "mulbi", "divbi", "add32", "sub32", "mul32", "div32", "pow", "neg", "abs", "reci", "trunc", "frac", "mov"]
    tries = 0
    while len(steps) < nsteps and tries < nsteps * 6:
        tries += 1
        op = rng.choice(ops)
        d = rng.randrange(len(regs))
        a = regs[d]
        big = limbs(a.numerator) + limbs(a.denominator) > cap
        if big and op not in ("trunc", "neg", "abs", "reci", "mov", "frac"):
            op = rng.choice(["trunc", "mov", "neg"])
        n = rng.randrange(len(regs))
        s = regs[n]
        if rng.random() < .25 and op in ("add", "sub", "mul", "div", "subbi"):
            n, s = d, a             # operate with its own value: cancellation
        sb = s.numerator
        w = i32(rng)
        if op == "add": v = a + s
        elif op == "sub": v = a - s
        elif op == "mul": v = a * s
        elif op == "div":
            if s == 0: continue
            v = a / s
        elif op == "addbi": v = a + sb
        elif op == "subbi": v = a - sb
        elif op == "mulbi": v = a * sb
        elif op == "divbi":
            if sb == 0: continue
            v = a / sb
        elif op == "add32": v = a + w; n = w
        elif op == "sub32": v = a - w; n = w
        elif op == "mul32": v = a * w; n = w
        elif op == "div32":
            if w == 0: continue
            v = a / w; n = w
        elif op == "pow":
            n = rng.randrange(-3, 4)
            if n < 0 and a == 0: continue
            v = a ** n
        elif op == "neg": v = -a
        elif op == "abs": v = abs(a)
        elif op == "reci":
            if a == 0: continue
            v = 1 / a
        elif op == "trunc": v = Fraction(tdiv(a.numerator, a.denominator))
        elif op == "frac": v = a - tdiv(a.numerator, a.denominator)
        elif op == "mov": v = s
        steps.append(f"{op}:{d}:{n}")
        regs[d] = v
        outs.append(rx(v))
    return Case("r.hist", [start, ",".join(steps)], want(",".join(outs)), "history") if steps else None


def eqhash(op, a, b, f):
    e = a == b
    def p(t):
        return t[0] == "c" and t[5] == ("1" if e else "0") and t[6] == ("0" if e else "1") and (t[-1] == "h" or not e)
    return Case(op, [f(a), f(b)], want_if(p, "== is %s, != its negation, equal values hash alike" % e), "eq/hash")


def ctor(rng):
    k = rng.randrange(9)
    if k == 0:
        a = uint(rng)
        return Case("u.rawround", [hx(a)], want(hx(a)))
    if k == 1:
        q = frac(rng)
        return Case("r.rawround", [rx(q)], want(rx(q)))
    if k == 2:
        a = uint(rng, 3)
        n = rng.randrange(2)
        return Case("b.from_ubi", [hx(a), str(n)], want(hx(-a if n else a)))
    if k <= 4:
        n, d = bpair(rng, 30)
        if rng.random() < .15:
            n = 0
        d = d or 1
        return Case("r.from_dn", [hx(d), hx(n)], want(rx(Fraction(n, d))))
    if k == 5:
        n, d = i32(rng), i32(rng) or 1
        return Case("r.from_dn_i32", [str(d), str(n)], want(rx(Fraction(n, d))))
    if k == 6:
        v = [limb(rng) if rng.random() < .6 else 0 for _ in range(rng.randrange(1, 9))] + [0] * rng.randrange(0, 4)
        w = list(v)
        while len(w) > 1 and w[-1] == 0:
            w.pop()
        return Case("utils.remove_suffix_0", ["[" + ",".join(map(str, v)) + "]"], want("[" + ",".join("i%d" % x for x in w) + "]"))
    if k == 7:
        v = [rng.choice([limb(rng), rng.getrandbits(60), rng.getrandbits(63), 0, (1 << 32) - 1, 1 << 32]) for _ in range(rng.randrange(1, 9))]
        # the value is preserved, the limbs fit in 32 bits
        val = sum(x << (32 * i) for i, x in enumerate(v))
        def p(t, val=val):
            o = [int(x[1:]) for x in t[1:-1].split(",")]
            return all(0 <= x < 1 << 32 for x in o) and sum(x << (32 * i) for i, x in enumerate(o)) == val
        return Case("utils.v64_to_v32", ["[" + ",".join(map(str, v)) + "]"], want_if(p, "same value, 32-bit limbs"))
    v = [limb(rng) for _ in range(rng.randrange(1, 9))]
    return Case("utils.v32_to_v64", ["[" + ",".join(map(str, v)) + "]"], want("[" + ",".join("i%d" % x for x in v) + "]"))


def workload(rng, tier, shard, nshards):
    n = 40000 if tier == "quick" else 480000
    for p in "ubr":
        yield Case(p + ".consts", ["0"], want("[0,1,0]" if p != "r" else "[0/1,1/1,0/1]"))
    for i in range(n):
        k = rng.randrange(10)
        L = rng.choice([3, 8, 20, 40])
        c = None
        if k < 3:
            c = hist_int(rng, "u", L, rng.choice([4, 12, 70]))
        elif k < 6:
            c = hist_int(rng, "b", L, rng.choice([4, 12, 70]))
        else:
            c = hist_ratio(rng, L, rng.choice([6, 14, 30]))
        if c:
            yield c
        for _ in range(3):
            yield ctor(rng)
        t = rng.randrange(3)
        if t == 0:
            yield eqhash("u.std_cmp", *upair(rng, 40), hx)
        elif t == 1:
            a, b = bpair(rng, 40)
            yield eqhash("b.std_cmp", a, rng.choice([b, -a, a]), hx)
        else:
            a, b = fpair(rng, 8)
            yield eqhash("r.std_cmp", a, b, rx)
