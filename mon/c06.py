"""Integers and machine numbers: exact when representable, an error otherwise."""
import struct
from fractions import Fraction
from .core import Case, want, want_if
from .gen import *

T = {"u8": (0, 8), "u16": (0, 16), "u32": (0, 32), "u64": (0, 64), "u128": (0, 128), "usize": (0, 64),
     "i8": (1, 8), "i16": (1, 16), "i32": (1, 32), "i64": (1, 64), "i128": (1, 128), "isize": (1, 64)}


def rng_of(t):
    s, b = T[t]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


def near(rng, t):
    lo, hi = rng_of(t)
    x = rng.random()
    if x < .35:
        return rng.choice([lo, hi]) + rng.choice([0, 0, -1, 1, -2, 2])
    if x < .5:
        return rng.randrange(lo, hi + 1)
    if x < .6:
        return rng.choice([lo, hi, 0]) + rng.randrange(-300, 300)
    if x < .8:
        return rng.choice([1, -1]) * ((1 << rng.randrange(0, 140)) + rng.choice([-1, 0, 1]))
    return sgn(rng, uint(rng, 6))


def err(x):
    return x.startswith("E")


def both(v):
    return want(v + " " + v)


def both_err(r):
    if r.st == "OK" and all(x.startswith("E") for x in r.text.split(" ")):
        return None
    return "expected an error"


# ---- floats -------------------------------------------------------------
def f32v(bits):
    return struct.unpack("<f", struct.pack("<I", bits))[0]


def f64v(bits):
    return struct.unpack("<d", struct.pack("<Q", bits))[0]


def f32bits(rng):
    k = rng.randrange(8)
    if k == 0:
        return rng.choice([0, 1 << 31, 1, 0x7fffff, 0x800000, 0x7f7fffff, 0x7f800000, 0xff800000, 0x7fc00000, 0xffc00001, 0x7f800001, 0x80000001, 0x3f800000, 0x3f7fffff, 0x3f800001, 0x3f000000])
    if k == 1:
        return (rng.randrange(2) << 31) | rng.getrandbits(23)                     # denormals
    if k <= 4:
        return (rng.randrange(2) << 31) | (rng.randrange(120, 160) << 23) | rng.choice([0, 1, 0x7fffff, rng.getrandbits(23), 1 << rng.randrange(23)])
    return rng.getrandbits(32)


def f64bits(rng):
    k = rng.randrange(8)
    if k == 0:
        return rng.choice([0, 1 << 63, 1, (1 << 52) - 1, 1 << 52, 0x7fefffffffffffff, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 0x7ff0000000000001, 0x8000000000000001, 0x3ff0000000000000, 0x3fefffffffffffff, 0x3ff0000000000001])
    if k == 1:
        return (rng.randrange(2) << 63) | rng.getrandbits(52)
    if k <= 4:
        return (rng.randrange(2) << 63) | (rng.randrange(1010, 1100) << 52) | rng.choice([0, 1, (1 << 52) - 1, rng.getrandbits(52), 1 << rng.randrange(52)])
    return rng.getrandbits(64)


def fval(t, bits):
    """exact value as a Fraction, or None for inf/nan"""
    v = f32v(bits) if t == "f32" else f64v(bits)
    if v != v or v in (float("inf"), float("-inf")):
        return None
    return Fraction(v)


def tofloat(t, q):
    """bits of the nearest float (ties to even), None when it is not finite. Exact integer arithmetic."""
    p, emin, emax, tot = (24, -126, 127, 32) if t == "f32" else (53, -1022, 1023, 64)
    if q == 0:
        return 0
    neg = q < 0
    q = abs(q)
    n, d = q.numerator, q.denominator
    e = n.bit_length() - d.bit_length()
    if (n << max(0, -e)) < (d << max(0, e)):
        e -= 1                      # now 2^e <= q < 2^(e+1)
    u = max(e, emin) - (p - 1)      # unit exponent
    a, b = (n << -u, d) if u < 0 else (n, d << u)
    m, r = divmod(a, b)
    if 2 * r > b or (2 * r == b and m & 1):
        m += 1
    if m == 0:
        return 0
    bits = ((max(e, emin) - emin) << (p - 1)) + m
    if bits >= ((1 << (tot - p)) - 1) << (p - 1):
        return None
    return bits | (int(neg) << (tot - 1))


def float_out(t, q):
    b = tofloat(t, q)
    return None if b is None else ("f%x" if t == "f32" else "d%x") % b


def workload(rng, tier, shard, nshards):
    n = 300000 if tier == "quick" else 3600000
    # all of i8/u8/bool; every boundary of every type
    for t in ("u8", "i8"):
        lo, hi = rng_of(t)
        for v in range(lo, hi + 1):
            if v % nshards == shard:
                yield Case("b.from." + t, [str(v)], both(hx(v)))
                yield Case("u.from." + t, [str(v)], both(hx(v)) if v >= 0 else both_err)
                yield Case("b.to." + t, [hx(v)], both("i%d" % v))
    for t in T:
        lo, hi = rng_of(t)
        for v in (lo - 1, lo, lo + 1, -1, 0, 1, hi - 1, hi, hi + 1):
            yield Case("b.to." + t, [hx(v)], both("i%d" % v) if lo <= v <= hi else both_err, "boundary")
            if v >= 0:
                yield Case("u.to." + t, [hx(v)], both("i%d" % v) if lo <= v <= hi else both_err, "boundary")
            if lo <= v <= hi:
                yield Case("b.from." + t, [str(v)], both(hx(v)), "boundary")
                yield Case("u.from." + t, [str(v)], both(hx(v)) if v >= 0 else both_err, "boundary")
    for v in (0, 1):
        for k in "ub":
            yield Case(k + ".from.bool", [str(v)], both(hx(v)))
    for i in range(n):
        k = rng.randrange(10)
        t = rng.choice(list(T))
        lo, hi = rng_of(t)
        if k < 2:
            v = near(rng, t)
            yield Case("b.to." + t, [hx(v)], both("i%d" % v) if lo <= v <= hi else both_err, "in" if lo <= v <= hi else "out")
        elif k < 4:
            v = abs(near(rng, t))
            yield Case("u.to." + t, [hx(v)], both("i%d" % v) if lo <= v <= hi else both_err, "in" if lo <= v <= hi else "out")
        elif k < 6:
            v = min(hi, max(lo, near(rng, t)))
            if rng.random() < .5:
                yield Case("b.from." + t, [str(v)], both(hx(v)))
            else:
                yield Case("u.from." + t, [str(v)], both(hx(v)) if v >= 0 else both_err)
        elif k == 6:
            f = rng.choice(["u.from_u32", "u.from_u64", "u.from_u128", "b.from_i32", "b.from_i64", "b.from_i128", "u.to_u32", "u.to_u64", "u.to_u128", "b.to_i32", "b.to_i64", "b.to_i128"])
            t = f.split("_")[1]
            lo, hi = rng_of(t)
            v = near(rng, t)
            if ".from_" in f:
                v = min(hi, max(lo, v))
                yield Case(f, [str(v)], want(hx(v)))
            else:
                if f[0] == "u":
                    v = abs(v)
                ok = lo <= v <= hi
                yield Case(f, [hx(v)], want("i%d" % v) if ok else both_err, "in" if ok else "out")
        elif k == 7:
            v = sgn(rng, uint(rng, 8))
            x = rng.randrange(5)
            if x == 0:
                yield Case("b.to_u", [hx(v)], want("[%s,%s]" % (hx(v), hx(v))) if v >= 0 else want_if(lambda t: all(map(err, t[1:-1].split(","))), "an error"))
            elif x == 1:
                yield Case("u.to_b", [hx(abs(v))], want("[%s,%s]" % (hx(abs(v)),) * 2 if False else "[%s,%s]" % (hx(abs(v)), hx(abs(v)))))
            elif x == 2:
                yield Case("u.to_r", [hx(abs(v))], want("[%s/1,%s/1]" % (hx(abs(v)), hx(abs(v)))))
            elif x == 3:
                yield Case("b.to_r", [hx(v)], want("[%s/1,%s/1]" % (hx(v), hx(v))))
            else:
                yield Case(rng.choice(["u.to.bool", "b.to.bool"]), [hx(abs(v))], both("b0" if v == 0 else "b1"))
        elif k == 8:
            ft = rng.choice(["f32", "f64"])
            bits = f32bits(rng) if ft == "f32" else f64bits(rng)
            q = fval(ft, bits)
            kind = rng.choice("ub")
            if q is None:
                j = both_err
            else:
                v = int(q)            # toward zero
                j = both(hx(v)) if v >= 0 or kind == "b" else both_err
            yield Case(f"{kind}.from.{ft}", ["%x" % bits], j, "float in")
        else:
            ft = rng.choice(["f32", "f64"])
            p = 24 if ft == "f32" else 53
            x = rng.randrange(5)
            if x == 0:
                v = uint(rng, 6)
            elif x == 1:              # rounding boundary: p bits, then a tie or its neighbours
                m = (1 << (p - 1)) | rng.getrandbits(p - 1)
                m = rng.choice([m, (1 << p) - 1, 1 << (p - 1)])
                s = rng.randrange(1, 100)
                v = ((2 * m + 1) << s >> 1) + rng.choice([-1, 0, 0, 1])
            elif x == 2:              # near the limit
                mx = 128 if ft == "f32" else 1024
                v = (1 << mx) - rng.choice([0, 1, (1 << (mx - p)), (1 << (mx - p - 1)), (1 << (mx - p - 1)) + 1, (1 << (mx - p - 1)) - 1, 1 << (mx - 1)])
            elif x == 3:
                v = 1 << rng.randrange(0, 140)
                v += rng.choice([-1, 0, 1])
            else:
                v = rng.getrandbits(rng.choice([p, p + 1, p + 2, 64, 128]))
            kind = rng.choice("ub")
            if kind == "b":
                v = sgn(rng, v)
            o = float_out(ft, Fraction(v))
            yield Case(f"{kind}.to.{ft}", [hx(v)], both(o) if o else both_err, "float out")
