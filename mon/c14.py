"""Series functions of rational arguments and the constants: the k-step value lies within the truncation error of the
true value (computed independently with mpmath), so it converges."""
from fractions import Fraction as F
import mpmath as mp
from .core import Case, want, want_if, want_panic
from .gen import *

mp.mp.prec = 4000
BATCH = 60
ZERO = mp.mpf(2) ** -3900


def q2(q):
    return mp.mpf(q.numerator) / q.denominator


def parse(t):
    if t.startswith("!"):
        raise ValueError("not in lowest terms")
    n, d = t.split("/")
    return mp.mpf(int(n, 16)) / int(d, 16)


def within(true, bound, rel=False):
    def p(t):
        e = abs(parse(t) - true)
        if rel:
            e = e / abs(true)
        return e <= bound + ZERO
    return want_if(p, "%s with %s error at most %s" % (mp.nstr(true, 40), "relative" if rel else "absolute", mp.nstr(bound, 6)))


def exact(true):
    return want_if(lambda t: parse(t) == true, mp.nstr(true, 20) + " exactly")


def e_pi(k):
    return mp.mpf(2) ** (-8 * k - 12)


def e_e(k):
    return mp.mpf(11) / 10 / mp.factorial(20 + k)


def e_ln2(k):
    return mp.mpf(2) ** (-6 * k - 15)


def b_sin(x, k):
    t = mp.pi / 4
    r = max(t ** (4 * k + 5) / mp.factorial(4 * k + 5), t ** (4 * k + 4) / mp.factorial(4 * k + 4))
    return mp.mpf("1.01") * r + abs(x) * e_pi(k) + e_pi(k)


def b_exp(x, k, g=None):
    """relative"""
    if g is None:
        g = abs(x - int(x)) if abs(x) < 2 ** 40 else mp.mpf(1)
    return 3 * g ** (k + 1) / mp.factorial(k + 1) + (abs(x) + 2) * e_e(k)


def b_ln(q, k):
    n, d = q.numerator, q.denominator
    e = n.bit_length() - d.bit_length()
    m = q / F(2) ** e
    if m < 1:
        m *= 2
        e -= 1
    b = mp.mpf(0)
    near = m > F(1999, 1000) or m < F(1001, 1000)
    for a in (m - 1, m / 2 - 1):
        a = abs(q2(a))
        if near and a > .9:
            a = mp.mpf(1)
        b = max(b, a ** (2 * k + 2) / (2 * k + 2) * (1 if a > .51 else 2))
    return mp.mpf("1.01") * b + (abs(e) + 1) * e_ln2(k)


def ser_asin(x, k):
    """remainder of the odd power series after the terms up to x^(2k+3)"""
    s = mp.mpf(0)
    c = mp.mpf(1)
    x = abs(x)
    p = x
    for n in range(k + 2):
        s += c / (2 * n + 1) * p
        c = c * (2 * n + 1) / (2 * n + 2)
        p *= x * x
    return abs(mp.asin(x) - s)


def b_atan(x, k):
    t = min(abs(x), 1 / abs(x)) if x else mp.mpf(0)
    return mp.mpf("1.01") * t ** (4 * k + 5) / (4 * k + 5) + (e_pi(k) if abs(x) > 1 else 0)


def small(rng, hi, neg=True):
    m = rng.randrange(5)
    if m == 0:
        q = F(rng.randrange(0, hi * 64 + 1), 64)
    elif m == 1:
        q = F(rng.randrange(0, hi * 1000 + 1), 1000)
    elif m == 2:
        d = rng.randrange(1, 40)
        q = F(rng.randrange(0, hi * d + 1), d)
    elif m == 3:
        q = F(rng.randrange(0, hi + 1))
    else:
        d = rng.getrandbits(rng.choice([16, 30, 40, 70])) + 1
        q = F(rng.randrange(0, hi * d + 1), d)
    return -q if neg and rng.random() < .5 else q


PIS = [F(355, 113), F(22, 7), F(103993, 33102), F(710, 113), F(355, 226), F(1065, 226), F(355, 452), F(1065, 452), F(1775, 452), F(314159265358979, 10 ** 14), F(157079632679489, 10 ** 14)]


def trig_arg(rng):
    if rng.random() < .25:
        q = rng.choice(PIS) + rng.choice([0, 0, F(1, 10 ** 4), F(-1, 10 ** 6)])
        return -q if rng.random() < .5 else q
    return small(rng, rng.choice([1, 2, 4, 7, 7, 13, 50, 1000]))


def steps(rng, cap, tier):
    return rng.choice([c for c in ([0, 0, 1, 1, 2, 2, 3, 4, 5] + ([6, 7] if tier != "quick" else [6])) if c <= cap])


def one(rng, tier):
    f = rng.randrange(22)
    if f <= 2:
        x = trig_arg(rng)
        k = steps(rng, 6, tier)
        if f == 0 and rng.random() < .1:
            x, k = F(rng.randrange(-30, 31), rng.choice([1, 2, 4])), rng.choice([8, 9])
        X = q2(x)
        bs = b_sin(X, k)
        a = [rx(x), str(k)]
        if f == 0:
            return Case("s.sin_iter", a, within(mp.sin(X), bs))
        if f == 1:
            return Case("s.cos_iter", a, within(mp.cos(X), bs))
        s, c = mp.sin(X), mp.cos(X)
        if abs(c) < 4 * bs:
            return Case("s.cos_iter", a, within(c, bs))
        return Case("s.tan_iter", a, within(s / c, 2 * bs / abs(c) * (1 + abs(s / c))))
    if f <= 5:
        x = small(rng, rng.choice([1, 1, 1, 3, 10, 30]))
        if rng.random() < .15:
            x = rng.choice([F(9, 10), F(89, 100), F(999, 1000), F(19, 10), F(-9, 10), F(-999, 1000), F(99999, 100000)]) + rng.choice([0, 0, 1, 2])
        k = rng.choice([0, 1, 2, 3, 5, 8, 12, 16, 20, 30])
        X = q2(x)
        return Case("s.exp_iter", [rx(x), str(k)], within(mp.exp(X), b_exp(X, k), True))
    if f <= 8:
        x = small(rng, rng.choice([1, 2, 4, 10, 100, 10 ** 6]), False)
        m = rng.random()
        if m < .25:
            x = F(2) ** rng.randrange(-70, 71) + rng.choice([0, 0, F(1, 7), F(1, 1000)])
        elif m < .4:
            x = F(2) ** rng.choice([-64, -63, -62, -33, -32, -31, 30, 31, 32, 33, 62, 63, 64, 65, 95, 96]) * rng.choice([F(3, 2), F(4, 3), F(5, 4), F(9, 8), F(17, 16), F(15, 16)])
        elif m < .5:
            x = F(abs(shaped(rng, rng.choice([2, 3, 4]))) + 1, abs(shaped(rng, rng.choice([1, 2, 3]))) + 1)
        if x == 0:
            x = F(1)
        k = rng.choice([0, 1, 2, 3, 5, 8, 12])
        return Case("s.ln_iter", [rx(x), str(k)], within(mp.log(q2(x)), b_ln(x, k)))
    if f == 9:
        x = small(rng, 20, False) + F(1, 97)
        b = small(rng, 20, False) + F(1, 89)
        k = rng.choice([1, 2, 3, 5, 8])
        lb, lx = mp.log(q2(b)), mp.log(q2(x))
        eb, ex = b_ln(b, k), b_ln(x, k)
        if abs(lb) < 4 * eb:
            return Case("s.ln_iter", [rx(b), str(k)], within(lb, eb))
        return Case("s.log_iter", [rx(b), rx(x), str(k)], within(lx / lb, 1.5 * (ex + abs(lx / lb) * eb) / abs(lb)))
    if f == 10:
        a, b = small(rng, 6, False), small(rng, 3)
        k = rng.choice([1, 2, 3, 4, 5])
        if a == 0:
            return Case("s.pow_iter", [rx(a), rx(b), str(k)], exact(mp.mpf(0)))
        if a.denominator.bit_length() > 20 or b.denominator.bit_length() > 20:
            a, b = F(rng.randrange(1, 300), 50), F(rng.randrange(-60, 60), 20)
        y = q2(b) * mp.log(q2(a))
        d = abs(q2(b)) * b_ln(a, k)
        r = b_exp(abs(y) + d, k, mp.mpf(1))
        return Case("s.pow_iter", [rx(a), rx(b), str(k)], within(mp.exp(y), (mp.exp(d) * (1 + r) - 1) * mp.mpf("1.01"), True))
    if f <= 13:
        x = small(rng, 1)
        if rng.random() < .1:
            x = rng.choice([F(1), F(-1), F(1, 2), F(-1, 2), F(0), F(999, 1000)])
        k = rng.choice([0, 1, 2, 3, 5, 8, 12, 16, 20])
        X = q2(x)
        r = mp.mpf("1.01") * ser_asin(X, k)
        if f == 13:
            return Case("s.acos_iter", [rx(x), str(k)], within(mp.acos(X), r + e_pi(k)))
        return Case("s.asin_iter", [rx(x), str(k)], within(mp.asin(X), r))
    if f <= 16:
        x = small(rng, rng.choice([1, 1, 2, 5, 1000]))
        if rng.random() < .1:
            x = rng.choice([F(1), F(-1), F(0), F(10001, 10000), F(9999, 10000), F(-2)])
        k = rng.choice([0, 1, 2, 3, 5, 8, 12])
        X = q2(x)
        return Case("s.atan_iter", [rx(x), str(k)], within(mp.atan(X), b_atan(X, k)))
    if f <= 18:
        m = rng.random()
        x = frac(rng, rng.choice([1, 2, 5, 20])) if m < .5 else small(rng, 1000)
        if m > .9:
            x = F(rng.randrange(0, 1000) ** 2, rng.randrange(1, 1000) ** 2)
        if m > .97:
            x = F(0)
        k = rng.choice([0, 1, 2, 3, 5, 8, 16, 30])
        if x == 0:
            return Case("s.sqrt_iter", [rx(x), str(k)], exact(mp.mpf(0)))
        return Case("s.sqrt_iter", [rx(x), str(k)], within(mp.sqrt(abs(q2(x))), mp.mpf("2.1") * mp.mpf(2) ** (-16 * (k + 1)), True))
    if f <= 20:
        x = frac(rng, rng.choice([1, 2, 5, 12])) if rng.random() < .5 else small(rng, 1000)
        if x == 0:
            return Case("s.cbrt_iter", [rx(x), "3"], exact(mp.mpf(0)))
        k = rng.choice([0, 1, 2, 3, 4, 5, 6])
        X = q2(x)
        return Case("s.cbrt_iter", [rx(x), str(k)], within(mp.sign(X) * mp.cbrt(abs(X)), mp.mpf(2) ** -CB[k], True))
    # outside the domain
    x = small(rng, 50) + F(1, 1009)
    m = rng.randrange(4)
    if m == 0:
        x = -abs(x)
        return Case("s.ln_iter", [rx(x), "3"], want_panic)
    if m == 1:
        return Case("s.ln_iter", ["0/1", "3"], want_panic)
    x = (abs(x) + 1) * rng.choice([1, -1])
    return Case("s.asin_iter" if m == 2 else "s.acos_iter", [rx(x), "3"], want_panic)


CB = [8, 16, 32, 64, 128, 256, 400]


def many(rng, tier):
    """few-digit arguments, many steps: the k-step error bound must go on shrinking"""
    f = rng.randrange(8)
    x = F(rng.randrange(1, 9), rng.randrange(9, 14)) * rng.choice([1, -1])
    X = q2(x)
    if f <= 1:
        k = rng.choice([rng.randrange(25, 70), rng.randrange(70, 200)] + ([rng.randrange(600, 720)] if rng.random() < .12 else []))
        x = rng.choice([F(1, 2), F(-1, 2), F(1, 3), F(2, 3), F(3, 4), F(1), F(-1)])
        X = q2(x)
        r = mp.mpf("1.01") * ser_asin(X, k)
        if f == 1 and k < 80:
            return Case("s.acos_iter", [rx(x), str(k)], within(mp.acos(X), r + e_pi(k)), "many steps")
        return Case("s.asin_iter", [rx(x), str(k)], within(mp.asin(X), r), "many steps")
    if f <= 3:
        k = rng.choice([rng.randrange(30, 90), rng.randrange(90, 200)])
        x += rng.choice([0, 0, 1, -3])
        X = q2(x)
        return Case("s.exp_iter", [rx(x), str(k)], within(mp.exp(X), b_exp(X, k), True), "many steps")
    if f == 4:
        k = rng.choice([rng.randrange(12, 40), rng.randrange(40, 70)])
        x = abs(x) + 1
        return Case("s.ln_iter", [rx(x), str(k)], within(mp.log(q2(x)), b_ln(x, k)), "many steps")
    if f == 5:
        k = rng.choice([rng.randrange(12, 40), rng.randrange(40, 120)])
        x = rng.choice([F(1, 2), F(-1, 3), F(2, 3), F(1), F(-1), F(3, 5)])
        if k < 60 and rng.random() < .5:
            x = 1 / x
        X = q2(x)
        return Case("s.atan_iter", [rx(x), str(k)], within(mp.atan(X), b_atan(X, k)), "many steps")
    if f == 6:
        k = rng.randrange(30, 230)
        return Case("s.sqrt_iter", [rx(x), str(k)], within(mp.sqrt(abs(X)), mp.mpf("2.1") * mp.mpf(2) ** (-16 * (k + 1)), True), "many steps")
    k = rng.choice([7, 8, 9])
    x = F(rng.randrange(-9, 10), rng.choice([1, 2, 3]))
    X = q2(x)
    n = rng.choice(["sin", "cos"])
    return Case(f"s.{n}_iter", [rx(x), str(k)], within(getattr(mp, n)(X), b_sin(X, k)), "many steps")


def odd_ratio(rng):
    """a quotient of odd integers next to a power of two: nothing cancels while scaling it into [1, 2)"""
    t = rng.choice([31, 32, 33, 62, 63, 64, 65, 94, 95, 96, 97, 127, 128, 1, 2, 15, 16, 17, rng.randrange(1, 130)])
    d = rng.getrandbits(rng.choice([1, 4, 12, 30])) | 1
    n = (int(d * F(rng.randrange(1 << 16, 1 << 17), 1 << 16) * (1 << t))) | 1
    x = F(n, d)
    return 1 / x if rng.random() < .6 else x


def workload(rng, tier, shard, nshards):
    for _ in range(40 if tier == "quick" else 400):
        yield many(rng, tier)
    for _ in range(60 if tier == "quick" else 700):
        x = odd_ratio(rng)
        k = rng.choice([1, 2, 3, 5])
        yield Case("s.ln_iter", [rx(x), str(k)], within(mp.log(q2(x)), b_ln(x, k)), "odd over odd")
    # the constants: every supported step count
    for k in range(shard, 255, nshards):
        if k % 5 == 0 or k < 60 or tier != "quick":
            yield Case("s.pi_iter", [str(k)], within(+mp.pi, e_pi(k)), "constant")
        if k < 200:
            yield Case("s.ln2_iter", [str(k)], within(+mp.ln2, e_ln2(k)), "constant")
        yield Case("s.e_iter", [str(k)], within(mp.e + 0, e_e(k)), "constant")
    if shard == 0:
        def eq(t):
            v = t.strip("[]").split(",")
            return all(abs(parse(a) - b) < c for a, b, c in zip(v, (mp.pi, mp.e, mp.ln2), (e_pi(7), e_e(15), e_ln2(11)))) and len(v) == 3
        yield Case("s.consts", ["1"], want_if(eq, "pi, e and ln 2 to the documented accuracy"), "constant")
    n = 1500 if tier == "quick" else 18000
    for _ in range(n):
        yield one(rng, tier)
