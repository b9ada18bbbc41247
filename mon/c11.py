"""Rationals and text: exact parsing of decimal literals, faithful printing."""
import re
from fractions import Fraction
from .core import Case, want, want_if
from .gen import *
from .c05 import literal, under, value, AMBIG

DEC = re.compile(r"(-?)(0_*|[1-9][0-9_]*)(?:\.([0-9_]*))?(?:[eE](-?(?:0_*|[1-9][0-9_]*)))?\Z")


def rvalue(s):
    m = DEC.match(s)
    if m:
        n = int(m.group(2).replace("_", ""))
        f = (m.group(3) or "").replace("_", "")
        e = int((m.group(4) or "0").replace("_", "") or "0")
        v = (Fraction(n) + (Fraction(int(f), 10 ** len(f)) if f else 0)) * Fraction(10) ** e
        return -v if m.group(1) else v
    neg = s.startswith("-")
    t = s[1:] if neg else s
    v = value(t)
    return None if v is None else Fraction(-v if neg else v)


def mk(rng, s, v):
    o = rx(v)
    if rng.random() < .5:
        return Case("r.from_string", [S(s)], want(o), "literal")
    return Case("r.from_str", [S(s)], want(f"[{o},{o},{o}]"), "literal")


def bad(rng, s):
    op = rng.choice(["r.from_string", "r.from_str"])
    return Case(op, [S(s)], want_if(lambda x: all(y.startswith("E") for y in x.strip("[]").split(",")), "an error"), "malformed")


def declit(rng):
    d = size(rng, [1, 3, 9, 20, 60, 60, rng.choice([100, 200, 310, 600])], 1500)
    n = rng.randrange(10 ** rng.randrange(0, d + 1))
    s = under(rng, str(n), False) if rng.random() < .3 else str(n)
    if rng.random() < .8:
        f = "".join(rng.choice("0000123456789") for _ in range(size(rng, [0, 1, 2, 5, 18, 19, 40, rng.choice([rng.randrange(1, 100), rng.randrange(100, 400)])], 800)))
        s += "." + (under(rng, f, True) if rng.random() < .2 else f)
    if rng.random() < .5:
        e = rng.choice([0, rng.randrange(-9, 10), rng.randrange(-60, 61), rng.randrange(-400, 400)])
        s += rng.choice("eE") + str(e)
    return ("-" if rng.random() < .4 else "") + s


BAD = ["", "-", ".", "-.", ".5", "-.5", "1.5.2", "1..2", "1e", "1e-", "1.5e", "1e1.5", "1e--1", "--1", "+1", "1.-5", "1.5-", "1.5e+5", "1.5f", "a", "1.a", "1e5e5",
       "0x1.5", "0b1.1", "0o7.5", "-0x123.4", "0x.3", "1 .5", "1. 5", " 1.5", "1.5 ", "1,5", "1/2", "01.5", "-01.5", "1.\u0665", "\u0665.1", "1e\u0665", "inf", "nan", "1e5.", "e5", "-e5", ".e5"]


def text(t):
    return bytes.fromhex(t[1:]).decode()


NUM = re.compile(r"(-?)(\d+)(?:\.(\d+))?(?:e(-?\d+))?\Z")


def approx_ok(q, ml, s):
    """what is printed is the value, truncated toward zero at the last place that fits"""
    m = NUM.match(s)
    if not m:
        return False
    ml = max(6, ml)
    digs = m.group(2) + (m.group(3) or "")
    e = int(m.group(4) or 0)
    f = len(m.group(3) or "")
    v = Fraction(int(digs), 10 ** f) * Fraction(10) ** e
    a = abs(q)
    if q == 0:
        return s == "0"
    if (m.group(1) == "-") != (q < 0):
        return False
    if m.group(4) is None:
        # plain notation: exact truncation at the length limit
        if len(s) > ml:
            return False
        places = ml - len(m.group(2)) - 1 - len(m.group(1))
        return 0 <= a - v < Fraction(1, 10 ** max(0, places)) and (places >= 0 or a - v < 1)
    if len(m.group(2)) != 1 or m.group(2) == "0":
        return False
    es = len("e" + m.group(4))
    lim = max(ml, es + 3)
    if len(s) > lim:
        return False
    # the exponent is right and the digits are a truncation; at least as many
    # digits as fit are used, up to 7
    nd = max(1, min(7, lim - es - len(m.group(1)) - 1))
    if -9 < e < 0:
        nd = min(nd, e + 10)        # small numbers are computed to 9 decimal places
    return 0 <= a - v < Fraction(10) ** (e - nd + 1)


def far_ok(q, ml, s):
    """beyond 10^+-9990: four significant digits, from logarithms (right next to
    the switch either notation will do)"""
    m = NUM.match(s)
    if not m or m.group(4) is None or (m.group(1) == "-") != (q < 0):
        return False
    f = m.group(3) or ""
    d = Fraction(int(m.group(2) + f), 10 ** len(f))
    if 1 <= d <= 10 and len(f) <= 3 and abs(abs(q) / Fraction(10) ** int(m.group(4)) - d) < Fraction(2, 1000):
        return True
    return abs(abs(int(m.group(4))) - 9990) <= 3 and approx_ok(q, ml, s)


def far(rng):
    e = rng.choice([9992, 10000, rng.randrange(9994, 14000), rng.randrange(10000, 20000)]) * rng.choice([1, -1])
    m = rng.choice([Fraction(1), Fraction(2), Fraction(rng.randrange(1000, 10000), 1000), Fraction(10 ** 6 - rng.randrange(0, 10 ** 6), 10 ** 5), Fraction(rng.getrandbits(80) + 1, 1 << 77), Fraction(rng.randrange(1000001, 1001000), 10 ** 6)])
    q = m * Fraction(10) ** e
    return -q if rng.random() < .4 else q


def approx_case(rng, q, ml):
    return Case("r.to_approx_string", [rx(q), str(ml)], want_if(lambda t: approx_ok(q, ml, text(t)), f"{float10(q)} truncated to {ml} characters"), "approx")


def float10(q):
    if q == 0:
        return "0"
    e = (len(str(abs(q.numerator))) - len(str(q.denominator)))
    m = q / Fraction(10) ** e
    return f"{float(m):.15}e{e}"


def sci_ok(q, k, s):
    m = re.match(r"(-?)(\d)(?:\.(\d*[1-9]))?e(-?\d+)\Z", s)
    if q == 0:
        return s.startswith("0e") and m is not None
    if not m or (m.group(1) == "-") != (q < 0) or m.group(2) == "0":
        return False
    d = m.group(2) + (m.group(3) or "")
    if len(d) > k:
        return False
    e = int(m.group(4))
    v = Fraction(int(d)) * Fraction(10) ** (e - len(d) + 1)
    # truncated after k digits (the last computed digit may be off by one
    # when more than 15 digits are asked for)
    a = abs(q)
    kk = min(k, 15)
    u = Fraction(10) ** (e - kk + 1)
    slack = a * Fraction(1, 10 ** 17)       # the value itself is shortened to 3 limbs or more
    return -slack <= a - v < u + slack


def magnitude(rng):
    k = rng.randrange(6)
    if k == 0:
        return frac(rng, rng.choice([1, 3, 8]))
    if k == 1:
        return Fraction(rng.randrange(-10 ** 6, 10 ** 6), 10 ** rng.randrange(0, 8))
    e = rng.choice([rng.randrange(-14, 15), rng.randrange(-60, 61), rng.randrange(-700, 700)])
    m = rng.choice([Fraction(1), Fraction(10 ** 20 - 1, 10 ** 20), Fraction(rng.randrange(1, 10 ** 6), 10 ** 5), Fraction(rng.getrandbits(80) + 1, 1 << 77), 1 + Fraction(1, 10 ** rng.randrange(1, 40)), Fraction(rng.randrange(1, 1000), 1)])
    q = m * Fraction(10) ** e
    return -q if rng.random() < .4 else q


def workload(rng, tier, shard, nshards):
    n = 108000 if tier == "quick" else 1296000
    for s in BAD:
        yield bad(rng, s)
    alpha = "019.e-_x"
    words, allw = [""], []
    for _ in range(4 if tier == "quick" else 5):
        words = [w + c for w in words for c in alpha]
        allw += words
    amb = re.compile(r"-?0_+[xXoObB]|-?0[xXoObB]_+\Z|.*[eE]-?0[xX]|.*[eE]-?0_+[xX]")
    for w in allw[shard::nshards]:
        if amb.match(w):
            continue
        v = rvalue(w)
        if v is None:
            yield bad(rng, w)
        elif v == 0 or abs(v) < Fraction(10) ** 2000 and abs(v) > Fraction(1, 10 ** 2000):
            yield mk(rng, w, v)
    for i in range(n):
        if i % 600 == 0:
            q, ml = far(rng), rng.choice([6, 12, 12, 20])
            yield Case("r.to_approx_string", [rx(q), str(ml)], want_if(lambda t, q=q, ml=ml: far_ok(q, ml, text(t)), f"{float10(q)} in four digits"), "approx far")
        k = rng.randrange(12)
        if k < 4:
            s = declit(rng) if rng.random() < .85 else rng.choice(["", "-"]) + literal(rng, uint(rng, 4))
            if amb.match(s):
                continue
            yield mk(rng, s, rvalue(s))
        elif k < 5:
            s = declit(rng)
            j = rng.randrange(len(s))
            t = s[:j] + rng.choice("0123456789_.-eExgh +,") + s[j + rng.randrange(2):]
            if amb.match(t):
                continue
            if any(len(x.replace("_", "")) > 3 for x in re.findall(r"[eE]-?([0-9_]*)", t)):
                continue            # astronomically large exponents: no one can afford those
            v = rvalue(t)
            yield bad(rng, t) if v is None else mk(rng, t, v)
        elif k < 8:
            yield approx_case(rng, magnitude(rng), size(rng, [0, 6, 7, 8, 9, 10, 12, 12, 15, 20, 30, rng.randrange(0, 120)], 3000))
        elif k < 10:
            q, kk = magnitude(rng), max(1, size(rng, [1, 2, 3, 5, 9, 12, 17, rng.randrange(1, 40)], 300))
            yield Case("r.to_scientific_notation", [rx(q), str(kk)], want_if(lambda t, q=q, kk=kk: sci_ok(q, kk, text(t)), f"{float10(q)} in {kk} digits"), "scientific")
        elif k < 11:
            q = frac(rng, rng.choice([1, 4, 10]))
            s = str(q.numerator) + ("/" + str(q.denominator) if q.denominator != 1 else "")
            yield Case("r.to_ratio_string", [rx(q)], want(S(s)), "ratio string")
        else:
            q = magnitude(rng)
            yield Case("r.fmt", [rx(q)], want_if(lambda t, q=q: len(set(t[1:-1].split(","))) == 1 and approx_ok(q, 12, text(t[1:-1].split(",")[0])), "Display, to_string and to_approx_string(12) agree on " + float10(q)), "display")
            a, b = declit(rng), declit(rng)
            va, vb = rvalue(a), rvalue(b)
            x, y = sgn(rng, uint(rng, 3)) or 1, sgn(rng, uint(rng, 3))
            yield Case("r.from_pair_str", [S(str(x)), S(str(y))], want(rx(Fraction(y, x))), "pair")
            yield Case("c.try_from", [S(a), S(b)], want(rx(va) + " " + rx(vb)), "complex")
