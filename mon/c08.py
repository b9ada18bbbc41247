"""Rational field arithmetic is exact and reduced, in every variant; Complex sums."""
from fractions import Fraction
from .core import Case, want, want_panic
from .gen import *


def r2(rng, a, c, cls=""):
    f = rng.choice(["add", "sub", "mul", "div"])
    op = "r." + f + rng.choice(["", "_mut"])
    if f == "div" and c == 0:
        return Case(op, [rx(a), rx(c)], want_panic, "by zero")
    v = {"add": lambda: a + c, "sub": lambda: a - c, "mul": lambda: a * c, "div": lambda: a / c}[f]()
    return Case(op, [rx(a), rx(c)], want(rx(v)), cls or ("zero result" if v == 0 else "integer result" if v.denominator == 1 else ""))


def rb(rng, a, n, suf):
    f = rng.choice(["add", "sub", "mul", "div"])
    op = f"r.{f}_{suf}" + rng.choice(["", "_mut"])
    arg = hx(n) if suf == "bi" else str(n)
    if f == "div" and n == 0:
        return Case(op, [rx(a), arg], want_panic, "by zero")
    v = {"add": lambda: a + n, "sub": lambda: a - n, "mul": lambda: a * n, "div": lambda: a / n}[f]()
    return Case(op, [rx(a), arg], want(rx(v)))


def related_int(rng, a, w32):
    """an integer sharing factors with a's numerator or denominator"""
    k = rng.randrange(6)
    if k == 0:
        v = a.denominator
    elif k == 1:
        v = a.numerator
    elif k == 2:
        v = gcd(a.denominator, uint(rng, 4)) * (uint(rng, 1) or 1)
    elif k == 3:
        v = a.denominator * (uint(rng, 2) or 1)
    else:
        v = i32(rng) if w32 else sgn(rng, uint(rng, 12))
    v = sgn(rng, v)
    if w32:
        v = i32(rng) if not -(1 << 31) <= v < 1 << 31 else v
    return v


def workload(rng, tier, shard, nshards):
    n = 192000 if tier == "quick" else 2304000
    # small fractions exhaustively: all sign and cancellation patterns
    small = sorted({Fraction(p, q) for p in range(-6, 7) for q in range(1, 7)})
    pairs = [(a, c) for a in small for c in small][shard::nshards]
    for a, c in pairs:
        A, C = rx(a), rx(c)
        for m in ("", "_mut"):
            yield Case("r.add" + m, [A, C], want(rx(a + c)), "small exhaustive")
            yield Case("r.sub" + m, [A, C], want(rx(a - c)), "small exhaustive")
            yield Case("r.mul" + m, [A, C], want(rx(a * c)), "small exhaustive")
            yield Case("r.div" + m, [A, C], want(rx(a / c)) if c else want_panic, "small exhaustive")
    for a in small:
        for w in range(-7, 8):
            if rng.randrange(nshards) == 0:
                yield rb(rng, a, w, "i32")
                yield rb(rng, a, w, "bi")
    for i in range(n):
        k = rng.randrange(16)
        cap = rng.choice([1, 3, 8, 20, 40])
        if k < 6:
            yield r2(rng, *fpair(rng, cap))
        elif k < 8:
            a = frac(rng, cap)
            yield rb(rng, a, related_int(rng, a, True), "i32")
        elif k < 10:
            a = frac(rng, cap)
            yield rb(rng, a, related_int(rng, a, False), "bi")
        elif k < 11:
            a = frac(rng, min(cap, 4))
            e = rng.choice([rng.randrange(-8, 9), rng.randrange(-40, 41)])
            if a in (0, 1, -1) and rng.random() < .5:
                e = rng.choice([i32(rng), -(1 << 31), (1 << 31) - 1])
            op = rng.choice(["r.pow_i32", "r.pow_i32_mut"])
            if a == 0 and e < 0:
                yield Case(op, [rx(a), str(e)], want_panic, "by zero")
            else:
                v = a ** e if abs(e) < 100 else (Fraction(0) if a == 0 else a ** (e % 2))
                yield Case(op, [rx(a), str(e)], want(rx(v)), "pow")
        elif k < 12:
            a = frac(rng, cap)
            f = rng.choice(["neg", "abs", "reci"]) + rng.choice(["", "_mut"])
            if f.startswith("reci") and a == 0:
                yield Case("r." + f, [rx(a)], want_panic, "by zero")
            else:
                yield Case("r." + f, [rx(a)], want(rx(-a if f[0] == "n" else abs(a) if f[0] == "a" else 1 / a)))
        elif k < 13:
            d, m = (x for x in bpair(rng, min(cap, 12)))
            if rng.random() < .1:
                d = 0
            yield Case("r.from_dn", [hx(d), hx(m)], want(rx(Fraction(m, d))) if d else want_panic, "construct" if d else "by zero")
            d, m = i32(rng), i32(rng)
            yield Case("r.from_dn_i32", [str(d), str(m)], want(rx(Fraction(m, d))) if d else want_panic, "construct" if d else "by zero")
        elif k < 14:
            a = frac(rng, cap)
            f, v = rng.choice([("add_self", 2 * a), ("sub_self", Fraction(0)), ("div_self", Fraction(1))])
            yield Case("r." + f, [rx(a)], want(rx(v)) if f != "div_self" or a else want_panic)
            x = rng.randrange(3)
            if x == 0:
                yield Case("r.get_denom", [rx(a)], want(hx(a.denominator)))
            elif x == 1:
                yield Case("r.get_numer", [rx(a)], want(hx(a.numerator)))
            else:
                d, m = hx(a.denominator), hx(a.numerator)
                yield Case("r.to_pair", [rx(a)], want(f"[{d},{m},{d},{m}]"))
        elif k < 15:
            a, c = fpair(rng, 4)
            b, d = fpair(rng, 4)
            s, t = rx(a + c), rx(b + d)
            yield Case("c.add", list(map(rx, (a, b, c, d))), want("[" + ",".join([s, t, s, t] + list(map(rx, (a, b, c, d)))) + "]"), "complex")
        else:
            a, b = fpair(rng, 4)
            w = i32(rng)
            s, t = rx(a + w), rx(b)
            yield Case("c.add_i32", [rx(a), rx(b), str(w)], want("[" + ",".join([s, t, s, t, rx(a), rx(b)]) + "]"), "complex")
            x, y = rng.randrange(-(1 << 63), 1 << 63), u32(rng)
            yield Case("c.from_ints", [str(x), str(y)], want(f"{hx(x)}/1 {hx(y)}/1"), "complex")
            v = rng.randrange(3)
            yield Case("r.from_bi" if v else "r.from_ubi", [hx(x) if v else hx(y)], want(rx(Fraction(x if v else y))))
            t, x = rng.choice([("i32", i32(rng)), ("i64", rng.choice([x, -(1 << 63), (1 << 63) - 1])), ("i128", rng.choice([-(1 << 127), (1 << 127) - 1, x * y]))])
            yield Case("r.from_" + t, [str(x)], want(rx(Fraction(x))))
