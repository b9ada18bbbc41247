"""Rationals and IEEE 754: exact in, correctly rounded out, errors for what is not finite."""
from fractions import Fraction
from .core import Case, want
from .gen import *
from .c06 import T, rng_of, both, both_err, f32bits, f64bits, fval, float_out, near


def around(rng, ft):
    """a rational placed relative to the floats of this format"""
    p, emin, emax, one = (24, -126, 127, 0) if ft == "f32" else (53, -1022, 1023, 0)
    k = rng.randrange(9)
    if k == 0:
        return frac(rng, rng.choice([1, 4, 12]))
    bits = f32bits(rng) if ft == "f32" else f64bits(rng)
    v = fval(ft, bits)
    if v is None:
        v = Fraction((1 << p) - 1) * Fraction(2) ** (emax - p + 1) * rng.choice([1, -1])
    if k == 1:
        return v
    # unit in the last place of v
    e = max(emin, abs(v).numerator.bit_length() - abs(v).denominator.bit_length()) if v else emin
    u = Fraction(2) ** (e - p + 1)
    half = u / 2
    tiny = u * Fraction(rng.choice([1, -1]), uint(rng, 4) + (1 << 40))
    if k <= 4:
        return v + rng.choice([1, -1]) * half + rng.choice([0, tiny, tiny])
    if k == 5:        # all-ones mantissa at any exponent: rounding carries
        e = rng.randrange(emin - p - 2, emax + 1)
        m = Fraction((1 << (p + rng.choice([0, 1, 2, 5]))) - 1)
        return rng.choice([1, -1]) * m * Fraction(2) ** (e - m.numerator.bit_length() + 1) + rng.choice([0, Fraction(2) ** (e - 3 * p)])
    if k == 6:        # the largest finite number and its rounding boundary
        top = Fraction(2) ** (emax + 1)
        uu = Fraction(2) ** (emax - p + 1)
        return rng.choice([1, -1]) * (top - uu * rng.choice([Fraction(1), Fraction(1, 2), Fraction(0), Fraction(1, 2) + Fraction(1, 1 << 80), Fraction(1, 2) - Fraction(1, 1 << 80), Fraction(3, 2), Fraction(-5)]))
    if k == 7:        # denormal range, including around half of the smallest
        s = Fraction(2) ** (emin - p + 1)
        return rng.choice([1, -1]) * s * (Fraction(rng.randrange(0, 40), rng.choice([1, 2, 4, 8])) + rng.choice([0, Fraction(1, 1 << 90), -Fraction(1, 1 << 90)]))
    return Fraction(sgn(rng, 1 + rng.getrandbits(rng.randrange(1, 90)))) * Fraction(2) ** rng.randrange(emin - p - 4, emax + 6)


def workload(rng, tier, shard, nshards):
    n = 156000 if tier == "quick" else 1872000
    for ft in ("f32", "f64"):
        w = 23 if ft == "f32" else 52
        eb = 8 if ft == "f32" else 11
        # every exponent, with extreme mantissas
        for e in range(shard, 1 << eb, nshards):
            for m in (0, 1, (1 << w) - 1, 1 << (w - 1), rng.getrandbits(w)):
                bits = (rng.randrange(2) << (w + eb)) | (e << w) | m
                q = fval(ft, bits)
                yield Case(f"r.from_{ft}", ["%x" % bits], want(rx(q)) if q is not None else both_err, "every exponent")
                if q is not None:
                    yield Case(f"r.to_ieee754_{ft}", [rx(q)], want(float_out(ft, q)), "every exponent")
    for i in range(n):
        ft = rng.choice(["f32", "f64"])
        k = rng.randrange(12)
        if k < 5:
            q = around(rng, ft)
            o = float_out(ft, q)
            if rng.random() < .7:
                yield Case(f"r.to_ieee754_{ft}", [rx(q)], want(o) if o else both_err, "round" if o else "overflow")
            else:
                yield Case(f"r.to.{ft}", [rx(q)], both(o) if o else both_err, "round" if o else "overflow")
        elif k < 9:
            bits = f32bits(rng) if ft == "f32" else f64bits(rng)
            q = fval(ft, bits)
            if rng.random() < .6:
                yield Case(f"r.from_{ft}", ["%x" % bits], want(rx(q)) if q is not None else both_err, "from")
            else:
                yield Case(f"r.from.{ft}", ["%x" % bits], both(rx(q)) if q is not None else both_err, "from")
            # the classification of non-finite numbers
            if q is None:
                w = 23 if ft == "f32" else 52
                nan = bits & ((1 << w) - 1)
                neg = bits >> (31 if ft == "f32" else 63)
                yield Case(f"r.inspect_{ft}", ["%x" % bits], want("ENotANumber" if nan else "ENegInfinity" if neg else "EInfinity"), "inspect")
            elif q == 0:
                yield Case(f"r.inspect_{ft}", ["%x" % bits], want("b0 i-2147483648 i0"), "inspect")
            else:
                w = 23 if ft == "f32" else 52
                a = abs(q)
                e = a.numerator.bit_length() - a.denominator.bit_length()
                if Fraction(2) ** e > a:
                    e -= 1
                fr = (a / Fraction(2) ** e - 1) * (1 << w)
                yield Case(f"r.inspect_{ft}", ["%x" % bits], want(f"b{int(q < 0)} i{e} i{fr.numerator}"), "inspect")
        elif k < 10:
            t = rng.choice(list(T))
            lo, hi = rng_of(t)
            v = min(hi, max(lo, near(rng, t)))
            yield Case("r.from." + t, [str(v)], both(hx(v) + "/1"), "machine ints")
            yield Case("r.from.bool", [str(v & 1)], both("%d/1" % (v & 1)))
        else:
            d, m = f64bits(rng), f32bits(rng)
            a, b = fval("f64", d), fval("f32", m)
            # (denominator, numerator), both truncated to integers
            a, b = (None if x is None else int(x) for x in (a, b))
            if a == 0:
                continue
            if a is None or b is None:
                yield Case("r.from_pair_f64", ["%x" % d, "%x" % m], both_err, "pair")
            else:
                yield Case("r.from_pair_f64", ["%x" % d, "%x" % m], want(rx(Fraction(b, a))), "pair")
