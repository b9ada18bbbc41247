"""Division and remainder: truncated quotient, remainder with the dividend's sign."""
from .core import Case, want, want_panic
from .gen import *


def tdiv(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


def trem(a, b):
    return a - b * tdiv(a, b)


OPS_U = ["u.div", "u.div_mut", "u.rem", "u.rem_mut"]
OPS_B = ["b.div", "b.div_mut", "b.rem", "b.rem_mut"]


def one(op, a, b, cls=""):
    if b == 0:
        return Case(op, [hx(a), hx(b)], want_panic, "by zero")
    v = tdiv(a, b) if "div" in op else trem(a, b)
    return Case(op, [hx(a), hx(b)], want(hx(v)), cls)


def one32(op, a, w):
    if w == 0:
        return Case(op, [hx(a), str(w)], want_panic, "by zero")
    v = tdiv(a, w) if "div" in op else trem(a, w)
    return Case(op, [hx(a), str(w)], want(hx(v)))


def hard(rng, cap):
    """dividends built around quotient digits that are easy to misestimate"""
    n = pick_len(rng, cap)
    top = rng.choice([0x80000000, 0x80000001, 0xffffffff, 1, 2, 0x7fffffff, rng.getrandbits(32) | 1])
    b = (top << (32 * (n - 1))) | (rng.choice([0, 1, MASK, (1 << (32 * (n - 1))) - 1, rng.getrandbits(max(1, 32 * (n - 1)))]) if n > 1 else 0)
    b &= (1 << (32 * n)) - 1
    b = b or 1
    q = from_limbs([rng.choice([0, 1, MASK, MASK - 1, 0x80000000, rng.getrandbits(32)]) for _ in range(rng.randrange(1, 6))])
    r = rng.choice([0, b - 1, 1 % b, b >> 1, rng.randrange(b)])
    a = q * b + r
    if rng.random() < .3:
        a = max(0, a + rng.choice([-1, 1, -b, b]))
    return a, b


def workload(rng, tier, shard, nshards):
    n = 260000 if tier == "quick" else 3120000
    for _ in range(10 if tier == "quick" else 60):
        a = huge(rng)
        if rng.random() < .7:
            yield one32(rng.choice(["u.div_u32", "u.div_u32_mut", "u.rem_u32", "u.rem_u32_mut"]), a, u32(rng) or 7)
        else:
            b = rng.choice([a, a + 1, a - 1, a >> 1, a >> 33, a << 1])
            yield one(rng.choice(OPS_U), a, b, "huge")
    L = lattice(3)
    pairs = [(a, b) for a in L for b in L]
    mine = pairs[shard::nshards]
    if tier == "quick":
        mine = rng.sample(mine, min(len(mine), 900))
    for a, b in mine:
        for op in OPS_U:
            yield one(op, a, b, "lattice")
        for op in OPS_B:
            yield one(op, rng.choice([a, -a]), rng.choice([b, -b]), "lattice")
    if tier == "thorough":
        L4 = lattice(4)
        for _ in range(40000):
            yield one(rng.choice(OPS_U), rng.choice(L4), rng.choice(L), "lattice4")
    for op in ("u.div_self", "u.rem_self"):
        for _ in range(20):
            a = uint(rng) or 1
            yield Case(op, [hx(a)], want("1" if "div" in op else "0"))
    for i in range(n):
        k = rng.randrange(12)
        if k < 3:
            a, b = upair(rng, 131 if rng.random() < .97 else 400)
            yield one(rng.choice(OPS_U), a, b)
        elif k < 6:
            a, b = hard(rng, 66 if rng.random() < .97 else 300)
            yield one(rng.choice(OPS_U), a, b, "hard quotient")
        elif k < 8:
            a, b = hard(rng, 20) if rng.random() < .5 else upair(rng, 40)
            yield one(rng.choice(OPS_B), sgn(rng, a), sgn(rng, b))
        elif k < 10:
            a = uint(rng, 40)
            if rng.random() < .3:
                w = u32(rng) or 1
                a = a * w + rng.choice([0, w - 1, 1 % w])
            else:
                w = u32(rng)
            yield one32(rng.choice(["u.div_u32", "u.div_u32_mut", "u.rem_u32", "u.rem_u32_mut"]), a, w)
        elif k < 11:
            a = sgn(rng, uint(rng, 20))
            yield one32(rng.choice(["b.div_i32", "b.div_i32_mut", "b.rem_i32", "b.rem_i32_mut"]), a, i32(rng))
        else:
            a = uint(rng, 20)
            e = rng.randrange(0, 32)
            if rng.random() < .5:
                yield Case("u.rem_pow2", [hx(a), str(1 << e)], want(hx(a % (1 << e))))
            else:
                a = sgn(rng, a)
                w = rng.choice([1, -1]) * (1 << min(e, 30)) if e < 31 else -(1 << 31)
                yield Case("b.rem_pow2", [hx(a), str(w)], want(hx(trem(a, w))))
