"""192-bit floats to and from machine numbers and rationals: exact when representable, rounded to nearest otherwise, errors out of range."""
from .core import Case, want, want_if
from .gen import *
from .f192 import *
from .c06 import T, rng_of, near, f32bits, f64bits, fval, tofloat
from .c10 import around


def trunc(q):
    n = abs(q.numerator) // q.denominator
    return n if q >= 0 else -n


def fit(q):
    """nearest representable number, halves away from zero"""
    if q == 0:
        return q
    u = ulp(q)
    m = abs(q) / u + F(1, 2)
    return (m.numerator // m.denominator) * u * (1 if q > 0 else -1)


def cut(q):
    """representable: truncated to 128 significant bits"""
    if q == 0:
        return q
    u = ulp(q)
    m = abs(q) / u
    return (m.numerator // m.denominator) * u * (1 if q > 0 else -1)


def to_float(ft, q):
    b = tofloat(ft, q)
    tot, p = (32, 24) if ft == "f32" else (64, 53)
    c = "f" if ft == "f32" else "d"
    sign = (1 << (tot - 1)) if q < 0 else 0
    if b is None:
        return want("%s%x" % (c, (((1 << (tot - p)) - 1) << (p - 1)) | sign))
    if b == 0:
        return want_if(lambda t: t in (c + "0", "%s%x" % (c, 1 << (tot - 1))), "zero")
    return want("%s%x" % (c, b))


def is_err(r):
    return None if r.st == "OK" and r.text.startswith("E") else "expected an error"


def rat(rng):
    k = rng.randrange(8)
    if k <= 2:
        return frac(rng, rng.choice([1, 3, 6, 12]), .006)
    if k == 3:      # between two neighbours: ties, just off ties
        q = val(rng, -140, 140)
        return q + ulp(q) * rng.choice([F(1, 2), F(-1, 2), F(1, 2) + F(1, 1 << 40), F(1, 2) - F(1, 1 << 40), F(1, 3), F(1, 1 << 90), -F(1, 1 << 90), F(15, 32), F(31, 64)])
    if k == 4:      # just below a power of two: the carry changes the exponent
        e = rng.randrange(-150, 150)
        return rng.choice([1, -1]) * (F(2) ** e) * (1 - F(1, 1 << rng.choice([126, 127, 128, 129, 130, 131, 140, 200])))
    if k == 5:
        return any_val(rng)
    if k == 6:
        return F(sgn(rng, rng.getrandbits(rng.choice([127, 128, 129, 130, 160, 300]))), rng.choice([1, 1, 3, 10, 1 << 64]))
    return F(sgn(rng, 1 + rng.getrandbits(40)), 1 + rng.getrandbits(rng.choice([8, 40, 128, 200])))


def one(rng):
    k = rng.randrange(16)
    if k < 3:
        t = rng.choice(list(T))
        lo, hi = rng_of(t)
        v = min(hi, max(lo, near(rng, t)))
        return Case("f.from." + t, [str(v)], near_ulps(F(v), 0, True), "from int")
    if k < 7:
        t = rng.choice(list(T))
        lo, hi = rng_of(t)
        m = rng.random()
        if m < .6:
            q = F(near(rng, t))
        elif m < .8:
            q = near(rng, t) + rng.choice([F(1, 2), F(1, 4), F(3, 4), F(1, 1 << 20), -F(1, 1 << 20), F(1, 1 << 60)])
        else:
            q = any_val(rng)
        q = cut(q)
        if lo == 0 and -1 < q < 0:
            q = -q
        v = trunc(q)
        return Case("f.to." + t, [fx(q)], want(f"i{v}") if lo <= v <= hi else is_err, "to int" if lo <= v <= hi else "to int, out of range")
    if k < 9:
        ft = rng.choice(["f32", "f64"])
        bits = f32bits(rng) if ft == "f32" else f64bits(rng)
        q = fval(ft, bits)
        return Case("f.from." + ft, ["%x" % bits], near_ulps(q, 0, True) if q is not None else is_err, "from float")
    if k < 12:
        ft = rng.choice(["f32", "f64"])
        q = cut(around(rng, ft)) if rng.random() < .8 else any_val(rng)
        return Case("f.to." + ft, [fx(q)], to_float(ft, q), "to float")
    if k < 14:
        q = rat(rng)
        e = fit(q)

        def p(t):
            a, b = t.split(" ")
            g, gk = parse(a)
            return b == "b1" and gk == 0 and g == e
        return Case("f.from_ratio", [rx(q)], want_if(p, "the nearest representable number, " + rx(e)), "from rational")
    q = any_val(rng)
    return Case("f.to_ratio", [fx(q)], want(rx(q) + " " + rx(q)), "to rational")


def workload(rng, tier, shard, nshards):
    n = 24000 if tier == "quick" else 288000
    for ft in ("f32", "f64"):
        w, eb = (23, 8) if ft == "f32" else (52, 11)
        for e in range(shard, 1 << eb, nshards):
            for m in (0, 1, (1 << w) - 1, rng.getrandbits(w)):
                bits = (rng.randrange(2) << (w + eb)) | (e << w) | m
                q = fval(ft, bits)
                yield Case("f.from." + ft, ["%x" % bits], near_ulps(q, 0, True) if q is not None else is_err, "every exponent")
                if q is not None:
                    yield Case("f.to." + ft, [fx(q)], to_float(ft, q), "every exponent")
                    h = q + rng.choice([1, -1]) * F(2) ** ((max(1, e) - (1 << (eb - 1)) + 1) - w - 1)
                    yield Case("f.to." + ft, [fx(h)], to_float(ft, h), "ties at every exponent")
    if shard == 0:
        for t in T:
            for v in rng_of(t):
                yield Case("f.from." + t, [str(v)], near_ulps(F(v), 0, True), "from int")
                yield Case("f.to." + t, [fx(F(v))], want(f"i{v}"), "to int")
    for _ in range(n):
        yield one(rng)
