"""Integer functions: floor square root, floor log2, gcd, factorial, fibonacci, primality, factorisation."""
from .core import Case, want, want_if
from .gen import *

_SMALLP = [p for p in range(2, 2000) if all(p % q for q in range(2, int(p ** .5) + 1))]


def is_prime(n):
    """deterministic Miller-Rabin for n < 3.3e24"""
    if n < 2:
        return False
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d //= 2; s += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def next_prime(n):
    n |= 1
    while not is_prime(n):
        n += 2
    return n


def b(x):
    return "b1" if x else "b0"


def factors(n):
    out = []
    for p in _SMALLP:
        while n % p == 0:
            out.append(p); n //= p
    p = 2003
    while p * p <= n:
        while n % p == 0:
            out.append(p); n //= p
        p += 2
    if n > 1:
        out.append(n)
    return out


def fact_case(rng, fs):
    """fs: the (sorted) prime factors"""
    n = 1
    for f in fs:
        n *= f
    w = "[" + ",".join(map(hx, sorted(fs))) + "]"
    if rng.random() < .3:
        return Case("b.prime_factorial", [hx(sgn(rng, n))], want(w), "factorisation")
    return Case("u.prime_factorial", [hx(n)], want(w), "factorisation")


def sqrt_case(rng, a, cls="sqrt"):
    if rng.random() < .2:
        s = rng.choice([1, -1])
        return Case("b.sqrt", [hx(s * a)], want(hx(s * isqrt(a))), cls)
    return Case("u.sqrt", [hx(a)], want(hx(isqrt(a))), cls)


def side(tier, seed):
    """numbers whose smallest prime factor is next to 2^32, where trial division changes from machine words to big integers"""
    import random
    rng = random.Random(f"{seed}/long")
    lo = next_prime((1 << 32) - rng.randrange(100, 3000))
    hi = next_prime((1 << 32) + rng.randrange(1, 3000))
    mid = next_prime(rng.randrange(1 << 31, (1 << 32) - 100000))
    out = [Case("u.is_prime", [hx(lo * lo)], want("b0"), "no factor below 2^31"),
           Case("u.is_prime", [hx(lo * hi)], want("b0"), "no factor below 2^31"),
           Case("u.prime_factorial", [hx(hi * hi)], want(f"[{hx(hi)},{hx(hi)}]"), "no factor below 2^32")]
    if tier != "quick":
        out += [Case("u.is_prime", [hx(mid * hi)], want("b0"), "no factor below 2^31"),
                Case("u.is_prime", [hx(hi * hi)], want("b0"), "no factor below 2^32"),
                Case("u.is_prime", [hx(next_prime((1 << 64) + rng.randrange(1 << 34)))], want("b1"), "prime above 2^64"),
                Case("u.prime_factorial", [hx(3 * mid * lo)], want(f"[3,{hx(mid)},{hx(lo)}]"), "no factor below 2^31")]
    return out


def fib(n):
    """(F(n), F(n+1))"""
    if n == 0:
        return 0, 1
    a, b = fib(n >> 1)
    c, d = a * (2 * b - a), a * a + b * b
    return (d, c + d) if n & 1 else (c, d)


def workload(rng, tier, shard, nshards):
    q = tier == "quick"
    n = 140000 if q else 1500000
    # exhaustive small range
    for v in range(shard, 6000 if q else 60000, nshards):
        yield Case("u.is_prime", [hx(v)], want(b(is_prime(v))), "small exhaustive")
        if v >= 2:
            yield fact_case(rng, factors(v))
        yield Case("u.sqrt", [hx(v)], want(hx(isqrt(v))), "small exhaustive")
        yield Case("u.log2", [hx(v)], want(hx(max(0, v.bit_length() - 1))), "small exhaustive")
    for _ in range(4):
        v = huge(rng)
        yield Case(rng.choice(["u.log2", "b.log2"]), [hx(v)], want(hx(v.bit_length() - 1)), "huge")
    f, g, h = 1, 0, 1
    for v in range(0, 900 if q else 3000):
        if v:
            f *= v
        if v % nshards == shard:
            if v < 700 or not q:
                yield Case(rng.choice(["u.factorial", "b.factorial"]), [str(v)], want(hx(f)), "factorial")
            yield Case(rng.choice(["u.fibonacci", "b.fibonacci"]), [str(v)], want(hx(g)), "fibonacci")
        g, h = h, g + h
    # a few large ones (the intermediate products grow past every change of multiplication method)
    from math import factorial
    for v in [rng.randrange(700, 1500), rng.randrange(1500, 3500), size(rng, [rng.randrange(700, 3500)], 4000)] + ([rng.randrange(3500, 9000)] if not q else []):
        yield Case(rng.choice(["u.factorial", "b.factorial"]), [str(v)], want(hx(factorial(v))), "factorial")
    for v in [rng.randrange(900, 3000) for _ in range(6)] + [size(rng, [rng.randrange(3000, 12000)], 30000) for _ in range(8)]:
        yield Case(rng.choice(["u.fibonacci", "b.fibonacci"]), [str(v)], want(hx(fib(v)[0])), "fibonacci")
    for _ in range(12 if q else 150):
        r = shaped(rng, rng.choice([70, 100, 129, 160]))
        yield sqrt_case(rng, max(0, r * r + rng.choice([-1, 0, 1, 2 * r])), "near square")
        yield sqrt_case(rng, abs(shaped(rng, rng.choice([140, 200, 257, 300]))))
    # powers of two and squares, and their neighbours, at every size
    for e in range(shard, 700 if q else 4000, nshards):
        for d in (-1, 0, 1):
            a = (1 << e) + d
            yield sqrt_case(rng, a)
            yield Case(rng.choice(["u.log2", "b.log2"]), [hx(a)], want(hx(max(0, a.bit_length() - 1))), "log2")
        r = rng.getrandbits(max(1, e // 2 + 1)) + 1
        for d in (-1, 0, 1):
            yield sqrt_case(rng, max(0, r * r + d), "near square")
        yield sqrt_case(rng, (1 << e) - (1 << (e // 2)))
    primes = [next_prime(rng.randrange(1 << (k - 1), 1 << k)) for k in (16, 17, 20, 24, 28, 31, 32, 33, 36, 40) for _ in range(2)]
    for p in primes:
        yield Case("u.is_prime", [hx(p)], want("b1"), "prime")
        if p < 1 << 31:
            yield fact_case(rng, [p])
            yield Case("u.is_prime", [hx(p * p)], want("b0"), "prime square") if p < 1 << 26 else Case("b.is_prime", [hx(-p)], want("b1"), "prime")
            if p < 1 << 21:
                yield fact_case(rng, [p, p])
                yield fact_case(rng, [p, next_prime(p + 2)])
    if not q:
        for p in [next_prime(rng.getrandbits(k)) for k in (44, 48, 52, 56)]:
            yield Case("u.is_prime", [hx(p)], want("b1"), "prime")
        if shard == 0:
            yield Case("u.is_prime", [hx((1 << 61) - 1)], want("b1"), "prime")
            yield Case("u.is_prime", [hx(4294967291 * 4294967279)], want("b0"), "semiprime below 2^64")
    for i in range(n):
        k = rng.randrange(14)
        if k < 4:
            yield sqrt_case(rng, uint(rng, rng.choice([2, 4, 20, 66])))
        elif k < 6:
            r = uint(rng, rng.choice([1, 2, 10, 33]))
            yield sqrt_case(rng, max(0, r * r + rng.choice([-1, 0, 1, 2 * r, 2 * r + 1, r])), "near square")
        elif k < 7:
            a = uint(rng)
            x = rng.randrange(3)
            if x == 0:
                yield Case("u.log2", [hx(a)], want(hx(max(0, a.bit_length() - 1))))
            elif x == 1:
                yield Case("b.log2", [hx(sgn(rng, a))], want(hx(max(0, a.bit_length() - 1))))
            else:
                yield Case("u.len", [hx(a)], want("i%d" % max(1, (a.bit_length() + 31) // 32)))
        elif k < 11:
            x, y = upair(rng, rng.choice([4, 12, 40]))
            if rng.random() < .1:
                x = 0
            if rng.random() < .5:
                yield Case("u.gcd", [hx(x), hx(y)], want(hx(gcd(x, y))), "gcd")
            else:
                x, y = sgn(rng, x), sgn(rng, y)
                yield Case("b.gcd", [hx(x), hx(y)], want(hx(gcd(x, y))), "gcd")
        elif k < 12:
            x, y = i32(rng), i32(rng)
            if rng.random() < .4:
                g = rng.randrange(1, 2000)
                x, y = g * rng.randrange(-1000, 1000), g * rng.randrange(-1000, 1000)
            if gcd(x, y) < 1 << 31:
                yield Case("utils.gcd_i32", [str(x), str(y)], want("i%d" % gcd(x, y)), "gcd")
        elif k < 13:
            # smooth numbers, far above 2^64 too
            fs = sorted(rng.choice(_SMALLP[:60]) if rng.random() < .8 else rng.choice(_SMALLP) for _ in range(rng.randrange(1, 40)))
            if rng.random() < .4:
                fs = sorted(fs[:8] + [next_prime(rng.getrandbits(rng.choice([12, 16, 20, 24])))])
            yield fact_case(rng, fs)
        else:
            v = rng.choice([rng.randrange(1 << 20), rng.randrange(1 << 32), rng.getrandbits(36) | 1])
            if rng.random() < .5:
                # composite with a small factor: any size
                v = rng.choice(_SMALLP[:40]) * (uint(rng, 6) + 2)
                yield Case(rng.choice(["u.is_prime", "b.is_prime"]), [hx(v)], want("b0"), "composite")
            else:
                yield Case("u.is_prime", [hx(v)], want(b(is_prime(v))), "primality")
