"""Oracle helpers for the 192-bit floats: exact values as (Fraction, power of two)."""
from fractions import Fraction as F
from .gen import *


def mant(rng):
    """an odd-or-not integer of at most 128 bits with a hostile shape"""
    k = rng.randrange(11)
    if k <= 2:
        return rng.getrandbits(128) | (1 << 127)
    if k == 3:
        return (1 << 127) + rng.choice([0, 0, 1, 2, 3])
    if k == 4:
        return (1 << 128) - 1 - rng.choice([0, 0, 1, 2])
    if k == 5:
        n = rng.randrange(1, 129)
        return (1 << n) - 1
    if k == 6:
        n = rng.randrange(1, 128)
        return (1 << 128) - (1 << n)
    if k == 7:
        return rng.randrange(1, 2000)
    if k == 8:
        n = rng.randrange(1, 128)
        return ((1 << 127) | (1 << n)) + rng.choice([0, 1, -1])
    if k == 9:
        return rng.getrandbits(rng.randrange(1, 128)) + 1
    # 64-bit halves at their extremes
    return (rng.choice([1 << 63, (1 << 64) - 1, (1 << 63) + 1, rng.getrandbits(63) | 1 << 63]) << 64) | rng.choice([0, 1, (1 << 64) - 1, 1 << 63, (1 << 63) - 1, rng.getrandbits(64)])


def val(rng, lo, hi, neg=True):
    """a representable number with magnitude in [2^lo, 2^(hi+1))"""
    m = mant(rng)
    h = hint(rng, .12)
    if h is not None:
        if rng.random() < .4 and 0 < h < 1 << 128:
            m = h
        h = sgn(rng, h)
    e = h if h is not None and lo <= h <= hi else rng.randrange(lo, hi + 1)
    q = F(m) * F(2) ** (e - m.bit_length() + 1)
    return -q if neg and rng.random() < .5 else q


def any_val(rng, neg=True):
    x = rng.random()
    if x < .03:
        return F(0)
    if x < .25:
        return val(rng, 0, 8, neg)
    if x < .5:
        return val(rng, -20, 60, neg)
    if x < .75:
        return val(rng, -130, 130, neg)
    if x < .95:
        return val(rng, -300, 300, neg)
    return val(rng, -3000, 3000, neg)


def sig_bits(q):
    """number of significant bits of a dyadic value"""
    n = abs(q.numerator)
    if n == 0:
        return 0
    return n.bit_length() - ((n & -n).bit_length() - 1)


def flog2(q):
    """floor(log2 |q|)"""
    q = abs(q)
    e = q.numerator.bit_length() - q.denominator.bit_length()
    if F(2) ** e > q:
        e -= 1
    elif F(2) ** (e + 1) <= q:
        e += 1
    return e


def ulp(q):
    return F(2) ** (flog2(q) - 127)


def representable(q):
    return q == 0 or (q.denominator & (q.denominator - 1) == 0 and sig_bits(q) <= 128)


def parse(t):
    """-> (Fraction, k), the value being fraction * 2^k"""
    k = 0
    if "@" in t:
        t, k = t.split("@")
        k = int(k)
    n, d = t.split("/")
    return F(int(n, 16), int(d, 16)), k


def near_ulps(v, n, exact=False, k=0):
    """judge: within n ulps of v*2^k (exactly v*2^k if exact)"""
    from .core import want_if

    def p(t):
        g, gk = parse(t)
        if not (abs(gk - k) < 20000 or v == 0 or g == 0):
            return False
        if v == 0 or g == 0:
            return g == v
        g = g * F(2) ** (gk - k)
        if exact:
            return g == v
        return abs(g - v) <= n * ulp(v)
    s = str(v) if len(str(v)) < 90 else "%s 2^%d*%.17g" % ("-" if v < 0 else "+", flog2(v), float(abs(v) / F(2) ** flog2(v)))
    return want_if(p, s + (f" * 2^{k}" if k else "") + (" exactly" if exact else f" within {n} units in the last place"))


def fx(q, k=0):
    return rx(q) + (f"@{k}" if k else "")
