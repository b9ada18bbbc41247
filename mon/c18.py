"""192-bit floats: elementary functions and constants are within their stated distance of the real function."""
import mpmath as mp
from .core import Case, want_panic, want_if
from .gen import *
from .f192 import *

BATCH = 300
PREC = 420


def tomp(q, k=0):
    return mp.ldexp(mp.mpf(q.numerator) / q.denominator, k)


def near(f, tol, desc):
    """|result - f()| <= tol(exact), all at PREC bits"""
    def p(t):
        g, gk = parse(t)
        with mp.workprec(PREC):
            x = f()
            return abs(tomp(g, gk) - x) <= tol(x)
    return want_if(p, desc)


def two(n):
    return mp.ldexp(mp.mpf(1), n)


def near_num(rng, c, lo=-127, hi=-3):
    """a representable number near c (a Fraction)"""
    d = F(rng.choice([1, -1])) * F(2) ** rng.randrange(lo, hi)
    r = c + rng.choice([0, 1]) * d
    if r == 0:
        return d
    return F(round(r / ulp(r))) * ulp(r) if representable(F(round(r / ulp(r))) * ulp(r)) else F(round(r))


def squares(rng):
    k = rng.randrange(5)
    if k == 0:
        n = rng.getrandbits(rng.randrange(1, 65)) + 1
        q = F(n * n) * F(4) ** rng.randrange(-60, 60)
        return q if representable(q) else F(4)
    if k == 1:
        n = rng.getrandbits(rng.randrange(1, 63)) + 1
        return F(n * n + rng.choice([-1, 1])) if n > 1 else F(2)
    if k == 2:
        return near_num(rng, F(2) ** rng.randrange(-200, 200), -330, -100)
    return abs(any_val(rng)) or F(1)


PI = None


def pi_frac():
    global PI
    if PI is None:
        with mp.workprec(700):
            PI = F(int(mp.floor(mp.ldexp(mp.pi, 600))), 1 << 600)
    return PI


def angle(rng):
    k = rng.randrange(10)
    if k <= 2:
        return val(rng, -3, 2)
    if k == 3:
        return val(rng, -140, -1)
    if k <= 6:      # near multiples of pi/12
        n = rng.choice([rng.randrange(0, 60), rng.randrange(0, 10 ** rng.randrange(1, 9))])
        c = pi_frac() * n / 12
        return near_num(rng, c) * rng.choice([1, -1])
    if k == 7:
        return F(rng.randrange(-400, 401))
    if k == 8:
        return val(rng, 3, 40)
    return val(rng, 3, 100)


def unit(rng):
    """an argument in [-1, 1]"""
    k = rng.randrange(9)
    if k <= 2:
        q = val(rng, -3, -1)
    elif k == 3:
        q = val(rng, -140, -2)
    elif k == 4:
        q = near_num(rng, rng.choice([F(1), F(1, 2), F(3, 4), F(1, 4), F(1, 8)]), -128, -3)
    elif k == 5:
        q = near_num(rng, rng.choice([F(int(2 ** 200 * 0.7071067811865476)), F(int(2 ** 200 * 0.8660254037844386)), F(int(2 ** 200 * 0.25881904510252074))]) / 2 ** 200, -60, -3)
    elif k == 6:
        q = F(1) - F(1, 1 << rng.randrange(1, 128))
    elif k == 7:
        q = F(rng.randrange(-64, 65), 64)
    else:
        q = val(rng, -1, -1)
    return q if abs(q) <= 1 and representable(q) else F(1, 3).limit_denominator(1 << 40) * 0 + F(5, 8)


def e_trig(x):
    return two(-73) + abs(tomp(x)) * two(-122)


def trig(rng, x):
    with mp.workprec(PREC):
        pass
    o = rng.choice(["sin", "sin", "cos", "cos", "tan"])
    small = abs(x) <= F(1, 8)
    if o == "sin":
        return Case("f.sin", [fx(x)], near(lambda: mp.sin(tomp(x)), lambda v: abs(v) * two(-120) if small else e_trig(x), "sin of the argument"), "trig")
    if o == "cos":
        return Case("f.cos", [fx(x)], near(lambda: mp.cos(tomp(x)), lambda v: two(-120) if small else e_trig(x), "cos of the argument"), "trig")
    with mp.workprec(PREC):
        c = mp.cos(tomp(x))
        if abs(c) < two(-30) or e_trig(x) > two(-40):
            return None
    return Case("f.tan", [fx(x)], near(lambda: mp.tan(tomp(x)), lambda v: (abs(v) * two(-118) if small else 2 * e_trig(x) * (1 + v * v)), "tan of the argument"), "trig")


def atrig(rng):
    o = rng.choice(["asin", "acos", "atan", "atan"])
    x = unit(rng)
    if o == "atan" and rng.random() < .5:
        x = rng.choice([val(rng, 0, 4), val(rng, 0, 130), F(rng.randrange(1, 300)), near_num(rng, F(rng.choice([1, 2, 4])), -120, -3), (1 / x if x and representable(1 / x) else val(rng, 0, 3))]) * rng.choice([1, -1])
    small = abs(x) <= F(1, 8)
    if o == "asin":
        return Case("f.asin", [fx(x)], near(lambda: mp.asin(tomp(x)), lambda v: abs(v) * two(-120) if small else two(-70), "asin of the argument"), "inverse trig")
    if o == "acos":
        return Case("f.acos", [fx(x)], near(lambda: mp.acos(tomp(x)), lambda v: two(-120) if small else two(-70), "acos of the argument"), "inverse trig")
    return Case("f.atan", [fx(x)], near(lambda: mp.atan(tomp(x)), lambda v: abs(v) * two(-120) if small or abs(x) >= 8 else two(-70), "atan of the argument"), "inverse trig")


def one(rng):
    k = rng.randrange(20)
    if k < 4:
        if rng.random() < .1:
            q, kk = val(rng, 0, 1, False), rng.choice([1, -1]) * rng.randrange(10 ** 4, 2 ** 36)
        else:
            q, kk = abs(squares(rng)), 0
        yield Case("f.sqrt", [fx(q, kk)], near(lambda: mp.sqrt(tomp(q, kk)), lambda v: v * two(-125), "the square root"), "sqrt")
    elif k < 8:
        q = rng.choice([abs(any_val(rng)) or F(1), val(rng, -1, 1, False), abs(near_num(rng, F(1), -127, -3)), F(2) ** rng.randrange(-500, 500), F(rng.randrange(1, 1000))])
        kk = 0
        if rng.random() < .1:
            q, kk = val(rng, 0, 1, False), rng.choice([1, -1]) * rng.randrange(10 ** 4, 2 ** 36)
        o = rng.choice(["log2", "ln", "ilog2"])
        if o == "ilog2":
            yield Case("f.ilog2", [fx(q, kk)], near_ulps(F(flog2(q) + kk), 0, True), "log")
        else:
            f = (lambda: mp.log(tomp(q, kk), 2)) if o == "log2" else (lambda: mp.log(tomp(q, kk)))
            yield Case("f." + o, [fx(q, kk)], near(f, lambda v: two(-119) * max(1, abs(v)), o + " of the argument"), "log")
    elif k < 10:
        m = rng.randrange(5)
        if m == 0:
            q = F(rng.choice([rng.randrange(-3000, 3001), rng.randrange(-2 ** 40, 2 ** 40)]))
            yield Case("f.pow2", [fx(q)], near_ulps(F(1), 0, True, int(q)), "pow2 of an integer")
        else:
            q = rng.choice([val(rng, -130, 10), val(rng, 6, 35), val(rng, -3, 6), near_num(rng, F(rng.randrange(-40, 40)), -110, -1), val(rng, -1, 1), F(rng.randrange(-640, 640), 64)])
            yield Case("f.pow2", [fx(q)], near(lambda: mp.power(2, tomp(q)), lambda v: v * two(-48), "2 to the argument"), "pow2")
    elif k < 12:
        x = rng.choice([val(rng, -4, 4, False), val(rng, -60, 60, False), F(rng.randrange(1, 50)), near_num(rng, F(1), -60, -3)])
        y = rng.choice([val(rng, -6, 5), F(rng.randrange(-40, 41)), F(rng.randrange(-90, 90), 2), F(rng.randrange(-90, 90), 16), F(0)])
        if x <= 0:
            x = F(2)
        if rng.random() < .15:      # large exponents, as far as the result stays in range
            if rng.random() < .5:
                y = val(rng, 6, 30)
            else:
                m = rng.randrange(3, 100)
                x, y = 1 + rng.choice([1, -1]) * F(1, 1 << m), val(rng, 3, m + 20)
        yield Case("f.pow", [fx(x), fx(y)], near(lambda: mp.power(tomp(x), tomp(y)), lambda v: v * (two(-48) + abs(tomp(y) * mp.log(tomp(x), 2)) * two(-116) + abs(tomp(y)) * two(-116)), "the power"), "pow")
    elif k < 16:
        x = angle(rng)
        if representable(x):
            c = trig(rng, x)
            if c:
                yield c
    elif k < 19:
        yield atrig(rng)
    else:
        m = rng.randrange(4)
        if m == 0:
            x = -abs(any_val(rng))
            yield Case("f." + rng.choice(["log2", "ln", "ilog2"]), [fx(x)], want_panic, "domain")
        elif m == 1:
            x = (1 + F(rng.choice([F(1, 1 << 127), F(1, 1 << 120), F(1, 2), F(5), F(1 << 80)]))) * rng.choice([1, -1])
            if representable(x):
                yield Case("f." + rng.choice(["asin", "acos"]), [fx(x)], want_panic, "domain")
        elif m == 2:
            x = -abs(any_val(rng))
            yield Case("f.pow", [fx(x), fx(val(rng, -3, 3))], want_panic, "domain")
        else:
            yield Case("f.sqrt", [fx(-abs(any_val(rng)))], near_ulps(F(0), 0, True), "domain")


def consts():
    with mp.workprec(300):
        w = [mp.mpf(0), mp.mpf(1), +mp.pi, mp.pi / 2, mp.pi / 3, mp.pi / 4, mp.pi / 6, +mp.e, mp.sqrt(2), mp.sqrt(3), mp.sqrt(10), 1 / mp.sqrt(2), mp.log(2), mp.log(3), mp.log(10), mp.mpf(0)]

    def p(t):
        v = t.strip("[]").split(",")
        if len(v) != len(w):
            return False
        with mp.workprec(300):
            return all(abs(tomp(*parse(a)) - b) <= b * two(-127) for a, b in zip(v, w))
    return Case("f.consts", ["0"], want_if(p, "0 1 pi pi/2 pi/3 pi/4 pi/6 e sqrt2 sqrt3 sqrt10 1/sqrt2 ln2 ln3 ln10 0"), "constants")


def grid(o, f, x, tol):
    return Case("f." + o, [fx(x)], near(lambda: f(tomp(x)), tol, o + " of the argument"), "grid")


def workload(rng, tier, shard, nshards):
    n = 16000 if tier == "quick" else 192000
    yield consts()
    # a grid over a period and over [-1, 1], and near every multiple of pi/12 of two periods
    step = 512 if tier == "quick" else 4096
    for i in range(shard, 2 * step, nshards):
        x = F(i - step, step)
        for o in ("asin", "acos", "atan"):
            yield grid(o, getattr(mp, o), x, lambda v: two(-70))
        for o in ("sin", "cos"):
            yield grid(o, getattr(mp, o), x * 7, lambda v, a=x * 7: e_trig(a))
        yield grid("pow2", lambda z: mp.power(2, z), x, lambda v: v * two(-48))
        m = 1 + abs(x)
        yield grid("sqrt", mp.sqrt, m, lambda v: v * two(-125))
        yield grid("sqrt", mp.sqrt, 2 * m, lambda v: v * two(-125))
        yield grid("log2", lambda z: mp.log(z, 2), m, lambda v: two(-119))
        for k in (-3000, -1, 0, 1, 70, 3001):
            c = F(2) ** k
            for d in (0, 1, -1):
                q = c + d * ulp(c) * (1 if d > 0 else F(1, 2))
                if i < 2 * nshards:
                    yield Case("f.ilog2", [fx(q)], near_ulps(F(flog2(q)), 0, True), "log")
    for _ in range(n):
        yield from one(rng)
