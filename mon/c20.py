"""Fixed-point logarithm and exponential: floor(log2 x * 2^32), and its inverse within 2^-31."""
import mpmath as mp
from .core import Case, want, want_if
from .gen import *

BATCH = 300


def flog(x):
    if x == 0:
        return 0
    with mp.workprec(x.bit_length() + 96):
        return int(mp.floor(mp.ldexp(mp.log(x, 2), 32)))


def log_case(x, op):
    box = []

    def p(t):
        if not box:
            box.append(flog(abs(x)))
        return t == hx(box[0])
    return Case(op, [hx(x)], want_if(p, "floor(log2(x) * 2^32)"), "log2")


def exp_case(n):
    def p(t):
        g = int(t, 16)
        with mp.workprec((n >> 32) + 160):
            e = mp.power(2, mp.ldexp(mp.mpf(n), -32))
            return abs(g - e) <= 1 + mp.ldexp(e, -31)
    return Case("u.exp2_accurate", [hx(n)], want_if(p, "2^(n / 2^32) within 1 + 2^-31 of it"), "exp2")


def workload(rng, tier, shard, nshards):
    n = 50000 if tier == "quick" else 600000
    for x in range(shard, 4096, nshards):
        yield log_case(x, "u.log2_accurate")
    for k in range(shard, 600, nshards):
        for d in (-1, 0, 1):
            if (1 << k) + d >= 0:
                yield log_case((1 << k) + d, "u.log2_accurate")
                yield log_case(-((1 << k) + d), "b.log2_accurate")
        yield Case("u.exp2_accurate", [hx(k << 32)], want(hx(1 << k)), "exp2 exact")
        yield exp_case((k << 32) + rng.choice([1, MASK, 1 << 31, (1 << 23) * rng.randrange(512), (1 << 22) * rng.randrange(1024) + 1]))
    # every segment of the table
    for i in range(shard, 512, nshards):
        for d in (0, 1, (1 << 22) - 1, 1 << 22, (1 << 22) + 1, (1 << 23) - 1, rng.getrandbits(23)):
            yield exp_case((rng.choice([0, 5, 31, 40, 100]) << 32) + (i << 23) + d)
    # right above and below the powers 2^(m / 2^32): the logarithm exceeds an integer by next to nothing
    for _ in range(n // 60):
        k = rng.choice([rng.randrange(1, 64), rng.randrange(64, 200), rng.randrange(150, 300), rng.randrange(300, 1300)])
        m = (k << 32) + rng.choice([rng.getrandbits(32), rng.getrandbits(8), MASK - rng.getrandbits(8)])
        with mp.workprec(k + 64):
            x = int(mp.power(2, mp.ldexp(mp.mpf(m), -32)))
        for d in (0, 1):
            yield log_case(x + d, "u.log2_accurate") if rng.random() < .7 else log_case(-x - d, "b.log2_accurate")
    for _ in range(n):
        k = rng.randrange(4)
        if k <= 1:
            x = rng.choice([uint(rng, 12), uint(rng, 40), rng.getrandbits(rng.randrange(1, 40)), 3 ** rng.randrange(1, 300)])
            if rng.random() < .5:
                yield log_case(x, "u.log2_accurate")
            else:
                yield log_case(sgn(rng, x), "b.log2_accurate")
        elif k == 2:
            yield exp_case(rng.choice([rng.getrandbits(rng.randrange(1, 42)), (rng.randrange(0, 300) << 32) + rng.getrandbits(32)]))
        else:
            x = rng.choice([rng.randrange(1, 1 << 10), rng.randrange(1, 1 << 28), (1 << rng.randrange(1, 28)) + rng.choice([-1, 1])])
            if x:
                yield Case("u.explog", [hx(x)], want(hx(x)), "inverse")
