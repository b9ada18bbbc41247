"""Rounding and splitting of rationals, common denominators, shrink, conversion to integers."""
from fractions import Fraction
from .core import Case, want, want_if
from .gen import *
from .c06 import T, rng_of, both, both_err


def trunc(q):
    n = abs(q.numerator) // q.denominator
    return -n if q < 0 else n


def rnd(q):
    n = (2 * abs(q.numerator) + q.denominator) // (2 * q.denominator)
    return -n if q < 0 else n


def parse_r(t):
    n, d = t.split("/")
    return Fraction(int(n, 16), int(d, 16))


def nl(n):
    return max(1, (abs(n).bit_length() + 31) // 32)


def shrink_case(rng):
    k = rng.randrange(8)
    L = rng.choice([3, 3, 4, 5, 8, 12])
    a = L + rng.randrange(-2, 12)
    b = a + rng.choice([0, 0, 1, -1, 2, 3, 4, 5, 6, -4, -5, -6, 9, -9])
    a, b = max(1, a), max(1, b)
    q = Fraction(sgn(rng, shaped(rng, a) or 1), shaped(rng, b) or 1)
    if k == 0:
        q = Fraction(sgn(rng, uint(rng, 1)), shaped(rng, 10) or 1)
    if k == 1:
        q = Fraction(sgn(rng, shaped(rng, 10)), uint(rng, 1) or 1)
    if k == 2:
        L = rng.randrange(0, 4)
    def p(t):
        r, o = t.split(" ")
        if "!" in r:
            return False
        v, o = parse_r(r), bytes.fromhex(o[1:]).decode()
        if rx(v) != r:
            return False
        ok, cnt = o.startswith("ok"), int(o.lstrip("oker"))
        if L < 3:
            return v == q and o == "err0"
        small = nl(q.numerator) <= L and nl(q.denominator) <= L
        if small:
            return v == q and o == "ok0"
        if ok and not (nl(v.numerator) <= L and nl(v.denominator) <= L):
            return False
        if not ok and nl(v.numerator) <= L and nl(v.denominator) <= L and v != q and cnt > 0:
            return False
        return abs(v - q) * (1 << 60) <= abs(q)
    return Case("r.shrink", [rx(q), str(L)], want_if(p, "a value within 2^-60, below the limit when Ok"), "shrink")


def workload(rng, tier, shard, nshards):
    n = 220000 if tier == "quick" else 2640000
    small = sorted({Fraction(p, q) for p in range(-20, 21) for q in range(1, 9)})
    def cases(q):
        t, r = trunc(q), rnd(q)
        fl = q.numerator // q.denominator
        return [("r.truncate", rx(Fraction(t))), ("r.truncate_mut", rx(Fraction(t))), ("r.truncate_bi", hx(t)),
                ("r.frac", rx(q - t)), ("r.frac_mut", rx(q - t)), ("r.truncate_and_frac", hx(t) + " " + rx(q - t)),
                ("r.floor", rx(Fraction(fl))), ("r.floor_bi", hx(fl)), ("r.round", rx(Fraction(r))), ("r.round_bi", hx(r)),
                ("r.to_b", "[%s,%s]" % (hx(t), hx(t)))]
    for q in small[shard::nshards]:
        for op, v in cases(q):
            yield Case(op, [rx(q)], want(v), "small exhaustive")
    for i in range(n):
        k = rng.randrange(10)
        q = frac(rng, rng.choice([1, 3, 10, 25]))
        if rng.random() < .3:         # exact halves, integers, and their close neighbours
            m = sgn(rng, uint(rng, rng.choice([1, 2, 6])))
            q = Fraction(2 * m + 1, 2) if rng.random() < .5 else Fraction(m)
            q += rng.choice([0, 0, Fraction(1, 1 << rng.randrange(1, 200)), -Fraction(1, uint(rng, 6) + 1)])
        if k < 6:
            op, v = rng.choice(cases(q))
            yield Case(op, [rx(q)], want(v))
        elif k < 7:
            a, b = fpair(rng, rng.choice([1, 4, 12]))
            l = a.denominator * b.denominator // gcd(a.denominator, b.denominator)
            yield Case("r.common_denom", [rx(a), rx(b)], want(f"{hx(int(a * l))} {hx(int(b * l))} {hx(l)}"), "common denominator")
        elif k < 8:
            yield shrink_case(rng)
        else:
            t = rng.choice(list(T) + ["ubi"])
            lo, hi = rng_of(t) if t != "ubi" else (0, 1 << 400)
            if rng.random() < .6:
                q = rng.choice([lo, hi, 0]) + rng.choice([-1, 1]) * rng.choice([Fraction(0), Fraction(1), Fraction(1, uint(rng, 3) or 1), Fraction(1, 2), Fraction(1, 3)])
            v = trunc(Fraction(q))
            if t == "ubi":
                yield Case("r.to_u", [rx(Fraction(q))], want("[%s,%s]" % (hx(v), hx(v))) if v >= 0 else want_if(lambda x: all(y.startswith("E") for y in x[1:-1].split(",")), "an error"))
            else:
                ok = lo <= v <= hi
                yield Case("r.to." + t, [rx(Fraction(q))], both("i%d" % v) if ok else both_err, "in" if ok else "out")
