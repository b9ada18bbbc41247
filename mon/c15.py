"""192-bit floats: every arithmetic operation is within its error bound of the exact result, exact where it promises to be,
and the order is the order of the values."""
from .core import Case, want, want_if, want_panic
from .gen import *
from .f192 import *
from .c04 import stdj, sg

BATCH = 300


def pair(rng):
    k = rng.randrange(14)
    a = any_val(rng)
    if k <= 3:
        return a, any_val(rng)
    if k == 4:
        return a, a
    if k == 5:
        return a, -a
    if k == 6 and a:      # neighbours: massive cancellation
        b = a + rng.choice([1, -1, 2, -2, 3]) * ulp(a)
        return (a, b) if representable(b) else (a, a)
    if k == 7 and a:      # one operand right below the last digit of the other
        return a, val(rng, flog2(a) - 132, flog2(a) - 120)
    if k == 8 and a:      # overlapping by part
        return a, val(rng, flog2(a) - 127, flog2(a))
    if k == 9:            # integers
        return F(sgn(rng, rng.getrandbits(rng.randrange(1, 129)))), F(sgn(rng, rng.getrandbits(rng.randrange(1, 129))))
    if k == 10:           # exact products and quotients
        n = rng.randrange(1, 128)
        return F(sgn(rng, rng.getrandbits(n) + 1)), F(sgn(rng, rng.getrandbits(128 - n) + 1)) * F(2) ** rng.randrange(-60, 60)
    if k == 11 and a:     # powers of two against anything
        return F(2) ** (flog2(a) + rng.randrange(-130, 131)) * rng.choice([1, -1]), a
    if k == 12:
        n = rng.randrange(1, 128)
        x, y = rng.getrandbits(n) + 1, rng.getrandbits(128 - n) + 1
        if (x * y).bit_length() <= 128:
            return F(sgn(rng, x * y)), F(sgn(rng, y))
    return val(rng, 0, 1), val(rng, 0, 1)


def arith(rng, op, a, b):
    A = [fx(a), fx(b)]
    if op == "add" or op == "sub":
        v = a + b if op == "add" else a - b
        return Case("f." + op, A, near_ulps(v, 2, representable(v)), op)
    if op == "mul":
        v = a * b
        return Case("f.mul", A, near_ulps(v, 4, sig_bits(a) + sig_bits(b) <= 128), op)
    if b == 0:
        if a == 0:
            return None
        return Case("f.div", A, want_panic, "div by zero")
    v = a / b
    ex = v.denominator & (v.denominator - 1) == 0 and sig_bits(v) + sig_bits(b) <= 128
    return Case("f.div", A, near_ulps(v, 10, ex), op)


def rnd(q):
    """(floor, ceil, round half away, truncate)"""
    fl = q.numerator // q.denominator
    tr = fl if q >= 0 or q == fl else fl + 1
    ce = fl if q == fl else fl + 1
    h = abs(q) + F(1, 2)
    r = h.numerator // h.denominator * (1 if q >= 0 else -1)
    return fl, ce, r, tr


def rounding_val(rng):
    k = rng.randrange(8)
    if k <= 1:
        return any_val(rng)
    n = rng.choice([rng.randrange(0, 50), rng.getrandbits(rng.randrange(1, 127)), (1 << rng.randrange(1, 127)) - rng.choice([0, 1])])
    room = 128 - max(1, n.bit_length())
    d = F(0)
    if room > 0:
        j = rng.randrange(1, room + 1)
        d = rng.choice([F(1, 2), F(1, 1 << j), F(1, 2) - F(1, 1 << j), F(1, 2) + F(1, 1 << j), 1 - F(1, 1 << j), F(rng.getrandbits(j), 1 << j)])
    q = n + d
    if not representable(q):
        q = F(n)
    return q * rng.choice([1, -1])


def huge(rng):
    """far beyond the range of f64: exponents of millions to trillions of bits"""
    a, b = val(rng, 0, 0), val(rng, 0, 0)
    # (division estimates logarithms in 64-bit fixed point: operands stay within 2^+-(2^37))
    ka = rng.choice([1, -1]) * rng.choice([rng.randrange(7000, 10 ** 6), rng.randrange(10 ** 6, 2 ** 33), rng.randrange(2 ** 33, 2 ** 37)])
    kb = rng.choice([ka, -ka, ka + rng.randrange(-140, 140), rng.randrange(-2 ** 37, 2 ** 37)])
    m = rng.randrange(8)
    A = [fx(a, ka), fx(b, kb)]
    if m == 0:
        return Case("f.mul", A, near_ulps(a * b, 4, sig_bits(a) + sig_bits(b) <= 128, ka + kb), "huge")
    if m == 1:
        v = a / b
        return Case("f.div", A, near_ulps(v, 10, False, ka - kb), "huge")
    if m == 2:
        d = ka - kb
        va, vb = (a * F(2) ** max(-300, min(300, d)), b)
        return Case("f.std_cmp", A, stdj(sg(va, vb)), "huge")
    if m == 3:
        kb = ka + rng.randrange(-140, 141)
        v = a * F(2) ** (ka - kb) + b
        return Case("f.add", [fx(a, ka), fx(b, kb)], near_ulps(v, 2, representable(v), kb), "huge")
    if m == 4:
        n = i32(rng)
        return Case("f.mul_i32", [fx(a, ka), str(n)], near_ulps(a * n, 1, representable(a * n), ka), "huge")
    if m == 5:
        n = i32(rng) or 3
        return Case("f.div_i32", [fx(a, ka), str(n)], near_ulps(a / n, 1, representable(a / n), ka), "huge")
    if m == 6:
        s = rng.randrange(0, 2 ** 40)
        o = rng.choice(["shl", "shr"])
        return Case("f." + o, [fx(a, ka), str(s)], near_ulps(a, 0, True, ka + (s if o == "shl" else -s)), "huge")
    n = rng.choice([2, 3, 5, 8, 9, -1, -2])
    if n < -1:
        ka //= 2
    v = a ** n
    return Case("f.powi", [fx(a, ka), str(n)], near_ulps(v, 8 * abs(n) + 40, False, ka * n), "huge")


def near_rel(f, n, desc):
    """within n units in the last place of a value given at high precision, whatever its exponent"""
    import mpmath as mp

    def p(t):
        g, gk = parse(t)
        with mp.workprec(400):
            x = f(mp)
            y = mp.ldexp(mp.mpf(g.numerator) / g.denominator, gk)
            return abs(y - x) <= abs(x) * n * mp.ldexp(mp.mpf(1), -127)
    return want_if(p, desc + f" within {n} units in the last place")


def big_power(rng):
    k = rng.randrange(4)
    n = sgn(rng, size(rng, [rng.getrandbits(rng.randrange(8, 36)) | 1, rng.getrandbits(rng.randrange(8, 36)), (1 << rng.randrange(8, 36)) + rng.choice([-1, 0, 1])], 2 ** 36, .2) or 5)
    if k == 0:
        e = rng.choice([0, 1, -1, rng.randrange(-3, 4)])
        if abs(e * n) > 2 ** 36:
            e = 1
        s = rng.choice([1, -1])
        return Case("f.powi", [fx(s * F(2) ** e), str(n)], near_ulps(F(s if n % 2 else 1), 0, True, e * n), "powi of a power of two")
    if k == 1:
        n = sgn(rng, rng.getrandbits(rng.randrange(8, 62)) | rng.randrange(2))
        m = rng.randrange(max(3, n.bit_length() - 34), 128)
        a = 1 + rng.choice([1, -1]) * F(rng.choice([1, 3, 5]), 1 << m)
    else:
        a = val(rng, -1, 1)
    if not representable(a):
        a = F(3, 4)
    return Case("f.powi", [fx(a), str(n)], near_rel(lambda mp: mp.power(mp.mpf(a.numerator) / a.denominator, n), 8 * abs(n) + 40, f"{float(a)}^{n}"), "powi with a large exponent")


def one(rng):
    k = rng.randrange(25)
    if k == 24:
        if rng.random() < .3:
            yield big_power(rng)
        return
    if k < 8:
        a, b = pair(rng)
        c = arith(rng, rng.choice(["add", "sub", "mul", "mul", "div", "div"]), a, b)
        if c:
            yield c
    elif k < 10:
        a, n = any_val(rng), i32(rng)
        if rng.random() < .25 and n:      # quotients that come back: (p/n)*n
            a = F(mant(rng)) / n
            a = F(int(a * (1 << 140)), 1 << 140)
            while not representable(a):
                a = F(a.numerator >> 1, max(1, a.denominator >> 1)) if a.denominator > 1 else F(a.numerator >> 20 << 20)
                a = F(a.numerator >> max(0, a.numerator.bit_length() - 128), a.denominator)
        if not representable(a):
            a = F(3)
        if rng.random() < .5:
            yield Case("f.mul_i32", [fx(a), str(n)], near_ulps(a * n, 1, representable(a * n)), "mul_i32")
        elif n == 0:
            yield Case("f.div_i32", [fx(a), "0"], want_panic, "div by zero")
        else:
            yield Case("f.div_i32", [fx(a), str(n)], near_ulps(a / n, 1, representable(a / n)), "div_i32")
    elif k < 13:
        a, b = pair(rng)
        yield Case("f.std_cmp", [fx(a), fx(b)], stdj(sg(a, b)), "cmp")
    elif k < 17:
        q = rounding_val(rng)
        fl, ce, r, tr = rnd(q)
        o, v = rng.choice([("floor", fl), ("ceil", ce), ("round", r), ("truncate", tr), ("frac", q - tr)])
        v = F(v)
        if representable(v):
            yield Case("f." + o, [fx(q)], near_ulps(v, 0, True), "rounding")
        yield Case("f.is_integer", [fx(q)], want("b1" if q.denominator == 1 else "b0"), "rounding")
    elif k < 19:
        a = any_val(rng)
        o = rng.randrange(6)
        if o == 0:
            yield Case("f.neg", [fx(a)], near_ulps(-a, 0, True), "unary")
        elif o == 1:
            yield Case("f.abs", [fx(a)], near_ulps(abs(a), 0, True), "unary")
        elif o == 2 and a:
            yield Case("f.step_epsilon", [fx(a)], near_ulps(a + ulp(a) * (1 if a > 0 else -1), 0, True), "unary")
        elif o <= 4:
            s = rng.choice([0, 1, 2, 63, 64, 127, 128, rng.randrange(0, 3000)])
            w = rng.choice(["shl", "shr"])
            yield Case("f." + w, [fx(a), str(s)], near_ulps(a * F(2) ** (s if w == "shl" else -s), 0, True), "shift")
        else:
            n = rng.choice([rng.randrange(-200, 200), rng.randrange(-5000, 5000)])
            yield Case("f.from_pow2", [str(n)], near_ulps(F(2) ** n, 0, True), "pow2")
    elif k < 21:
        a = val(rng, -6, 6)
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, rng.randrange(0, 300)]) * rng.choice([1, 1, -1])
        if rng.random() < .1:
            a = F(0)
            n = abs(n)
        v = a ** n
        ex = 0 <= n and sig_bits(a) * n <= 120
        yield Case("f.powi", [fx(a), str(n)], near_ulps(v, 8 * abs(n) + 40, ex), "powi")
    else:
        yield huge(rng)


def workload(rng, tier, shard, nshards):
    n = 100000 if tier == "quick" else 1200000
    if shard == 0:
        for x in (1, -1):
            for m in (-2 ** 63, 2 ** 63 - 1):
                yield Case("f.powi", [fx(F(x)), str(m)], near_ulps(F(1) if x == 1 or m % 2 == 0 else F(-1), 0, True), "powi")
    # small integers, exhaustively
    R = range(-9, 10)
    for i, (a, b) in enumerate((a, b) for a in R for b in R):
        if i % nshards == shard:
            for op in ("add", "sub", "mul", "div"):
                c = arith(rng, op, F(a), F(b))
                if c:
                    yield c
            yield Case("f.std_cmp", [fx(F(a)), fx(F(b))], stdj(sg(a, b)), "cmp")
    for _ in range(n):
        yield from one(rng)
