"""One total order: every comparison entry point agrees with the mathematical order."""
from .core import Case, want
from .gen import *


def sg(a, b):
    return (a > b) - (a < b)


def expect(f, c):
    r = {"lt": c < 0, "gt": c > 0, "eq": c == 0, "neq": c != 0, "leq": c <= 0, "geq": c >= 0}
    if f == "comp":
        return "o" + "0+-"[c]
    return "b1" if r[f] else "b0"


FS = ["lt", "gt", "eq", "neq", "leq", "geq", "comp"]


def std(c):
    s = "c" + "".join("1" if x else "0" for x in (c < 0, c <= 0, c > 0, c >= 0, c == 0, c != 0))
    return s + "0+-"[c] * 2 + "1"


def stdj(c):
    s = std(c)
    def j(r):
        # equal values must hash alike; nothing is asked of different ones
        if r.st == "OK" and r.text[:-1] == s and (r.text[-1] == "h" or c != 0):
            return None
        return "expected " + s
    return j


def all_cmp(kind, a, b, f, rng, full):
    c = sg(a, b)
    for x in (FS if full else [rng.choice(FS)]):
        yield Case(f"{kind}.{x}", [f(a), f(b)], want(expect(x, c)), "<=>"[c + 1])
    if full or rng.random() < .3:
        yield Case(f"{kind}.std_cmp", [f(a), f(b)], stdj(c), "<=>"[c + 1])


def workload(rng, tier, shard, nshards):
    n = 72000 if tier == "quick" else 864000
    for _ in range(6 if tier == "quick" else 40):
        a = huge(rng)
        b = rng.choice([a, a + 1, a ^ 1 << rng.randrange(a.bit_length()), huge(rng)])
        t = rng.choice([1, -1])
        yield from all_cmp("u", a, b, hx, rng, False)
        yield from all_cmp("b", t * a, t * b, hx, rng, False)
    L = lattice(2)
    pairs = [(a, b) for a in L for b in L][shard::nshards]
    for a, b in pairs:
        yield from all_cmp("u", a, b, hx, rng, True)
        yield from all_cmp("b", rng.choice([a, -a]), rng.choice([b, -b]), hx, rng, True)
    for i in range(n):
        k = rng.randrange(12)
        full = rng.random() < .3
        if k < 3:
            a, b = upair(rng, 70)
            yield from all_cmp("u", a, b, hx, rng, full)
            if rng.random() < .2:
                yield Case("u.std_ops", [hx(a), hx(b)], want(hx(max(a, b)) + " " + hx(min(a, b))))
        elif k < 5:
            a, b = bpair(rng, 70)
            if rng.random() < .3:
                a, b = abs(a) * (s := rng.choice([1, -1])), abs(b) * s
            yield from all_cmp("b", a, b, hx, rng, full)
        elif k < 8:
            a, b = fpair(rng, 12)
            if rng.random() < .2:       # neighbours: a/b against a mediant-close fraction
                e = Fraction(1, (uint(rng, 6) or 1) ** 2)
                b = a + rng.choice([e, -e, 0])
            yield from all_cmp("r", a, b, rx, rng, full)
        elif k < 9:
            w = u32(rng)
            a = rng.choice([uint(rng, 4), w, max(0, w - 1), w + 1, w + (1 << 32), w << 32])
            for x in (FS if full else [rng.choice(FS)]):
                yield Case(f"u.{x}_u32", [hx(a), str(w)], want(expect(x, sg(a, w))))
        elif k < 10:
            w = i32(rng)
            a = rng.choice([sgn(rng, uint(rng, 4)), w, w - 1, w + 1, -w, w + (1 << 32), w - (1 << 32), w << 32])
            for x in (FS if full else [rng.choice(FS)]):
                yield Case(f"b.{x}_i32", [hx(a), str(w)], want(expect(x, sg(a, w))))
        elif k < 11:
            w = i32(rng)
            q = rng.choice([frac(rng, 6), Fraction(w), Fraction(w) + Fraction(rng.choice([1, -1]), uint(rng, 5) or 1), Fraction(-w), Fraction(w, uint(rng, 2) or 1)])
            for x in (FS if full else [rng.choice(FS)]):
                yield Case(f"r.{x}_i32", [rx(q), str(w)], want(expect(x, sg(q, w))))
        else:
            q = rng.choice([frac(rng, 8), Fraction(rng.randrange(-2, 3)), 1 + Fraction(rng.choice([1, -1]), uint(rng, 6) or 1)])
            t = [("is_neg", q < 0), ("is_one", q == 1), ("is_zero", q == 0), ("is_integer", q.denominator == 1), ("lt_one", q < 1), ("gt_one", q > 1)]
            x, v = rng.choice(t)
            yield Case("r." + x, [rx(q)], want("b1" if v else "b0"))
            a = rng.choice([0, 1, -1, sgn(rng, uint(rng, 4)), 1 << 32, (1 << 32) + 1, -(1 << 64)])
            x, v = rng.choice([("is_neg", a < 0), ("is_one", a == 1), ("is_zero", a == 0)])
            yield Case("b." + x, [hx(a)], want("b1" if v else "b0"))
            a = abs(a)
            x, v = rng.choice([("is_one", a == 1), ("is_zero", a == 0)])
            yield Case("u." + x, [hx(a)], want("b1" if v else "b0"))
