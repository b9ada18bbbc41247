"""Polynomials: canonical coefficients, evaluation, derivatives, Newton steps, interpolation, text."""
from fractions import Fraction
from .core import Case, want, want_if, want_panic
from .gen import *
from .c11 import approx_ok
from .c06 import float_out

F = Fraction


def vec(v):
    return "[" + ",".join(map(rx, v)) + "]"


def norm(v):
    v = list(v)
    while v and v[0] == 0:
        v.pop(0)
    return v or [F(0)]


def ev(v, x):
    r = F(0)
    for c in v:
        r = r * x + c
    return r


def diff(v):
    n = len(v) - 1
    return norm([c * (n - i) for i, c in enumerate(v[:-1])])


def coeff(rng):
    return rng.choice([F(0), F(1), F(-1), F(rng.randrange(-9, 10)), frac(rng, 1, 0), frac(rng, 3, 0), F(rng.randrange(-99, 100))])


def poly(rng, d=None):
    d = size(rng, [0, 1, 2, 3, 4, 6, 9, 14, rng.choice([15, 16, 17, 20, 24, 31, 32, 33, 40, 66])], 150, .1) if d is None else d
    v = [coeff(rng) for _ in range(d + 1)] if d < 15 else [F(rng.randrange(-9, 10)) if rng.random() < .9 else coeff(rng) for _ in range(d + 1)]
    if rng.random() < .25:
        for i in range(rng.randrange(1, d + 2)):
            v[i] = F(0)
    elif d <= 6 and rng.random() < .12:     # one coefficient of extreme magnitude, often the leading one
        v[rng.choice([0, 0, rng.randrange(d + 1)])] = wide(rng)
    return v


def interp(xs, ys):
    """Lagrange, exactly"""
    n = len(xs)
    tot = [F(0)] * n
    for i in range(n):
        b = [F(1)]
        den = F(1)
        for j in range(n):
            if j != i:
                b = [x - xs[j] * y for x, y in zip(b + [F(0)], [F(0)] + b)]
                den *= xs[i] - xs[j]
        for k in range(n):
            tot[k] += b[k] * ys[i] / den
    return norm(tot)


def rs(q):
    return str(q.numerator) + ("/" + str(q.denominator) if q.denominator != 1 else "")


def ptext(v):
    out = ""
    n = len(v) - 1
    for i, c in enumerate(v):
        e = n - i
        if c == 0:
            continue
        out += (" - " if c < 0 else " + ") if out else ("-" if c < 0 else "")
        a = abs(c)
        mono = "" if e == 0 else "x" if e == 1 else f"x^{e}"
        if a != 1 or e == 0:
            out += rs(a) + (" * " if e else "")
        out += mono
    return out or "0"


def approx_poly_ok(v, ml, s):
    """same shape, with every coefficient a faithful short form"""
    n = len(v) - 1
    pos = 0
    first = True
    for i, c in enumerate(v):
        e = n - i
        if c == 0:
            continue
        sign = (" - " if c < 0 else " + ") if not first else ("-" if c < 0 else "")
        if not s.startswith(sign, pos):
            return False
        pos += len(sign)
        first = False
        a = abs(c)
        mono = "" if e == 0 else "x" if e == 1 else f"x^{e}"
        if a != 1 or e == 0:
            j = pos
            while j < len(s) and (s[j].isdigit() or s[j] in ".e" or (s[j] == "-" and s[j - 1] == "e")):
                j += 1
            if not approx_ok(a, ml, s[pos:j]):
                return False
            pos = j
            if e:
                if not s.startswith(" * ", pos):
                    return False
                pos += 3
        if not s.startswith(mono, pos):
            return False
        pos += len(mono)
    return pos == len(s) if not first else s == "0"


def workload(rng, tier, shard, nshards):
    n = 7000 if tier == "quick" else 80000
    for i in range(n):
        k = rng.randrange(20)
        v = poly(rng)
        c = norm(v)
        x = frac(rng, 2, 0) if rng.random() < .7 and len(c) < 16 else F(rng.randrange(-5, 6))
        if k < 2:
            op = rng.choice(["p.from_vec", "p.from_vec_generic"])
            yield Case(op, [vec(v)], want(vec(c)), "construct")
            w = [rng.choice([0, 0, i32(rng)]) for _ in range(rng.randrange(0, 6))]
            yield Case("p.from_vec_i32", ["[" + ",".join(map(str, w)) + "]"], want(vec(norm(map(F, w)))), "construct")
        elif k == 2:
            w = [F(0)] * rng.randrange(0, 3) + c if rng.random() < .6 else poly(rng, len(c) - 1)
            yield Case("p.eq", [vec(v), vec(w)], want("b1" if norm(w) == c else "b0"), "equality")
        elif k < 5:
            yield Case(rng.choice(["p.diff", "p.diff_mut"]), [vec(c)], want(vec(diff(c))), "derivative")
            m = rng.randrange(0, len(c) + 2)
            d = c
            for _ in range(m):
                d = diff(d)
            yield Case("p.diff_n", [vec(c), str(m)], want(vec(d) + " " + vec(d)), "iterated derivative")
        elif k < 8:
            yield Case("p.calc", [vec(c), rx(x)], want(rx(ev(c, x))), "evaluation")
        elif k < 10:
            q = rng.choice([F(0), F(1), F(-1), frac(rng, 2, 0)])
            w = i32(rng)
            if rng.random() < .7:
                yield Case(rng.choice(["p.mul_k", "p.mul_k_mut"]), [vec(c), rx(q)], want(vec(norm([a * q for a in c]))), "scale")
            else:
                yield Case("p.mul_k_i32", [vec(c), str(w)], want(vec(norm([a * w for a in c]))), "scale")
        elif k < 12:
            d = diff(c)
            fx, fp = ev(c, x), ev(d, x)
            yield Case("p.newton", [vec(c), rx(x)], want(rx(x - fx / fp)) if fp else want_panic, "newton" if fp else "newton at a critical point")
            if fp:
                yield Case("p.newton_pre", [vec(c), vec(d), rx(x)], want(rx(x - fx / fp)), "newton")
        elif k < 14:
            yield Case("p.ratio_string", [vec(c)], want(S(ptext(c))), "text")
            ml = rng.choice([6, 8, 12, 20])
            yield Case("p.approx_string", [vec(c), str(ml)], want_if(lambda t, c=c, ml=ml: approx_poly_ok(c, ml, bytes.fromhex(t[1:]).decode()), "approximate text of " + ptext(c)[:300]), "text")
        elif k < 15:
            ft = rng.choice(["f32", "f64"])
            o = [float_out(ft, a) for a in c]
            yield Case("p." + ft, [vec(c)], want("[" + ",".join(o) + "]") if None not in o else want_panic, "floats")
        elif k < 17:
            m = rng.choice([1, 2, 3, 4, 4, 5, 5, 6])
            xs = []
            while len(xs) < m:
                y = frac(rng, 1, 0) if rng.random() < .4 else F(rng.randrange(-12, 13))
                if y not in xs:
                    xs.append(y)
            ys = [coeff(rng) for _ in range(m)]
            if rng.random() < .3:       # data that really come from a lower-degree polynomial
                u = norm(poly(rng, rng.randrange(0, m)))
                ys = [ev(u, y) for y in xs]
            if rng.random() < .12 and m > 1:
                xs[rng.randrange(1, m)] = xs[0]
                yield Case("p.from_points", [vec(xs), vec(ys)], want("EZeroDeterminant"), "repeated abscissa")
            elif rng.random() < .3 and all(y.denominator == 1 and abs(y) < 1 << 31 for y in xs + ys):
                iv = lambda z: "[" + ",".join(str(int(y)) for y in z) + "]"
                yield Case("p.from_points_generic", [iv(xs), iv(ys)], want(vec(interp(xs, ys))), "interpolation")
            else:
                yield Case("p.from_points", [vec(xs), vec(ys)], want(vec(interp(xs, ys))), "interpolation")
        elif k == 17:
            a, b = fpair(rng, 2, .01)
            v1, v2, v3, v4 = (coeff(rng) for _ in range(4))
            if a == b:
                j = want(vec(norm([v3, v1 - a * v3])))
            else:
                h = b - a
                # Hermite form
                s = (v2 - v1) / h
                c3 = (v3 + v4 - 2 * s) / (h * h)
                c2 = (3 * s - 2 * v3 - v4) / h
                # f = v1 + v3 t + c2 t^2 + c3 t^3, t = x - a
                p = norm([c3, c2 - 3 * a * c3, v3 - 2 * a * c2 + 3 * a * a * c3, v1 - a * v3 + a * a * c2 - a ** 3 * c3])
                j = want(vec(p))
            yield Case("p.cubic", list(map(rx, (a, b, v1, v2, v3, v4))), j, "hermite")
        elif k == 18:
            a, b = fpair(rng, 2, .01)
            c3 = rng.choice([frac(rng, 2, 0), a, b])
            v1, v2, v3 = (coeff(rng) for _ in range(3))
            xs, ys = [a, b, c3], [v1, v2, v3]
            if len(set(xs)) == 3:
                j = want(vec(interp(xs, ys)))
            else:
                def p(t, xs=xs, ys=ys):
                    o = [F(int(z.split("/")[0], 16), int(z.split("/")[1], 16)) for z in t[1:-1].split(",")]
                    return len(o) <= 2 and all(any(ev(o, z) == y2 for z2, y2 in zip(xs, ys) if z2 == z) for z in xs)
                j = want_if(p, "a line (or constant) through one value of each abscissa")
            yield Case("p.quad", list(map(rx, (a, b, c3, v1, v2, v3))), j, "quadratic")
        else:
            a, b = fpair(rng, 2, .01)
            v1, v2 = coeff(rng), coeff(rng)
            if a == b:
                j = want_if(lambda t, v1=v1, v2=v2: t in ("[" + rx(v1) + "]", "[" + rx(v2) + "]"), "a constant, one of the values")
            else:
                j = want(vec(interp([a, b], [v1, v2])))
            yield Case("p.linear", list(map(rx, (a, b, v1, v2))), j, "linear")
