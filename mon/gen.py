"""Hostile operand generators (all randomness from the given rng)."""
from fractions import Fraction
from math import gcd, isqrt
import os
from . import hints

HINTS = hints.novel(os.environ.get("VERIF_REPO", "/repo"))

W = 32
MASK = (1 << 32) - 1
SPECIAL = [0, 1, 2, 3, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff, 0x10000, 0xffff, 0x55555555, 0xaaaaaaaa]
# limb counts where the implementation is likely to switch method, and around them
LENS_SMALL = [1, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8]
LENS_MID = [9, 10, 12, 15, 16, 17, 20, 24, 30, 31, 32, 33, 34, 40, 48]
LENS_BIG = [60, 62, 63, 64, 65, 66, 67, 72, 80, 96, 100, 120, 126, 127, 128, 129, 130, 131]
LENS_HUGE = [150, 191, 192, 193, 200, 255, 256, 257, 258, 300, 400, 512, 513]


def hint(rng, p=.08):
    """with probability p a constant that is new in the source (or a neighbour of one), else None"""
    if HINTS and rng.random() < p:
        return rng.choice(HINTS) + rng.choice([0, 0, 0, -1, 1, 2])


def size(rng, choices, cap, p=.15):
    """a structural size: one of the choices, or one that a new constant of the source suggests"""
    h = hint(rng, p)
    if h is not None:
        h = rng.choice([h, h, h // 2, 2 * h, h // 32, h // 32 + 1, h.bit_length(), h + rng.randrange(8)])
        if 0 <= h <= cap:
            return h
    return rng.choice(choices)


def pick_len(rng, cap):
    h = hint(rng, .06)
    if h is not None:
        h = rng.choice([h, h, h // 2, 2 * h, h // 32, h // 32 + 1])
        if 1 <= h <= max(cap, 80):
            return h
    x = rng.random()
    if x < 0.62 or cap <= 8:
        n = rng.choice(LENS_SMALL)
    elif x < 0.80 or cap <= 48:
        n = rng.choice(LENS_MID)
    elif x < 0.95 or cap <= 131:
        n = rng.choice(LENS_BIG)
    else:
        n = rng.choice(LENS_HUGE)
    return min(n, cap)


def limb(rng):
    h = hint(rng)
    if h is not None:
        return h & MASK
    x = rng.random()
    if x < 0.5:
        return rng.choice(SPECIAL)
    if x < 0.85:
        return rng.getrandbits(32)
    if x < 0.95:
        return 1 << rng.randrange(32)
    return rng.randrange(300)


def from_limbs(v):
    n = 0
    for x in reversed(v):
        n = (n << 32) | x
    return n


def shaped(rng, n):
    """an integer of about n limbs with a deliberate shape"""
    k = rng.randrange(12)
    b = 32 * n
    if k <= 1:
        return rng.getrandbits(b) | (1 << (b - rng.randrange(1, 33)))
    if k <= 4:
        return from_limbs([limb(rng) for _ in range(n)])
    if k == 5:
        return (1 << (b - rng.randrange(0, 33))) - rng.choice([0, 1, 1, 1, 2, 3, 1 << 32])
    if k == 6:
        return (1 << (b - rng.randrange(1, 33))) + rng.choice([0, 0, 1, 1, 2, 3, MASK, 1 << 32, rng.getrandbits(16)])
    if k == 7:      # runs of ones and zeros
        v = 0
        pos = 0
        bit = rng.randrange(2)
        while pos < b:
            l = rng.choice([1, 2, 7, 8, 31, 32, 33, 63, 64, 65, rng.randrange(1, 100)])
            if bit:
                v |= ((1 << l) - 1) << pos
            pos += l
            bit ^= 1
        return v & ((1 << b) - 1)
    if k == 8:      # sparse
        v = 0
        for _ in range(rng.randrange(1, 5)):
            v |= limb(rng) << (32 * rng.randrange(n))
        return v | (rng.randrange(1, 1 << 32) << (32 * (n - 1)))
    if k == 9:      # repeated limb
        x = limb(rng)
        return from_limbs([x] * n)
    if k == 10:     # low limbs zero
        z = rng.randrange(0, n)
        return (rng.getrandbits(32 * (n - z)) | 1) << (32 * z)
    return 10 ** rng.randrange(0, max(1, int(b * 0.301)) + 1) + rng.choice([0, 0, 1, -1, 9])


def uint(rng, cap=131):
    h = hint(rng, .1)
    if h is not None:
        k = rng.randrange(6)
        if k <= 1 or h < 2:
            return max(0, h)
        if k == 2 and h <= max(64 * cap, 2048):
            return (1 << h) + rng.choice([0, 0, -1, 1])
        if k == 3 and h <= max(20 * cap, 600):
            return 10 ** h + rng.choice([0, 0, -1, 1])
        if k == 4:
            return h * (uint(rng, min(cap, 4)) + 1) + rng.randrange(2)
        if k == 5:
            return h * h + rng.choice([0, 0, -1, 1])
    x = rng.random()
    if x < 0.10:
        return rng.randrange(0, 20)
    if x < 0.16:
        return rng.randrange(0, 3000)
    return max(0, shaped(rng, pick_len(rng, cap)))


def u32(rng):
    h = hint(rng, .15)
    if h is not None:
        return h & MASK
    x = rng.random()
    if x < 0.35:
        return rng.choice(SPECIAL)
    if x < 0.55:
        return rng.randrange(0, 100)
    if x < 0.65:
        return (1 << rng.randrange(32))
    if x < 0.75:
        return (1 << rng.randrange(1, 33)) - 1
    if x < 0.85:
        return rng.randrange(60000, 70000)
    return rng.getrandbits(32)


def i32(rng):
    h = hint(rng, .15)
    if h is not None:
        h = sgn(rng, h)
        return h if -(1 << 31) <= h < 1 << 31 else ((h + (1 << 31)) & MASK) - (1 << 31)
    x = rng.random()
    if x < 0.3:
        return rng.choice([0, 1, -1, 2, -2, 2147483647, -2147483648, -2147483647, 2147483646, 65536, -65536, 65537, 10, -10])
    if x < 0.55:
        return rng.randrange(-60, 60)
    if x < 0.7:
        return rng.choice([1, -1]) * (1 << rng.randrange(31))
    if x < 0.8:
        return rng.randrange(-70000, 70000)
    return rng.randrange(-(1 << 31), 1 << 31)


def sgn(rng, n):
    return -n if rng.random() < 0.5 else n


def upair(rng, cap=131):
    """pairs related in ways that stress carries, borrows and quotient estimation"""
    k = rng.randrange(14)
    a = uint(rng, cap)
    if k <= 3:
        return a, uint(rng, cap)
    if k == 4:
        return a, a
    if k == 5:
        return a, max(0, a + rng.choice([-1, 1, -2, 2, -(1 << 32), 1 << 32, MASK, -MASK, rng.getrandbits(32)]))
    if k == 6:      # same high limbs
        n = max(1, (a.bit_length() + 31) // 32)
        lo = rng.randrange(0, n + 1)
        return a, (a >> (32 * lo) << (32 * lo)) | rng.getrandbits(32 * lo) if lo else a
    if k == 7:      # a + b = power of the base (maximal carry chain)
        n = max(1, (a.bit_length() + 31) // 32)
        return a, (1 << (32 * n)) - a
    if k <= 10:     # a = q*b + r
        b = uint(rng, max(1, cap // 2)) or 1
        q = uint(rng, max(1, cap // 2))
        r = rng.choice([0, 0, 1, b - 1, b - 1, b // 2, rng.randrange(b)])
        return q * b + min(r, b - 1), b
    if k == 11:     # multiples with a common factor
        g = uint(rng, max(1, cap // 3)) or 1
        return g * uint(rng, max(1, cap // 3)), g * uint(rng, max(1, cap // 3))
    if k == 12:     # very different lengths
        return a, uint(rng, 2)
    b = uint(rng, 4)
    return b, a


def bpair(rng, cap=131):
    a, b = upair(rng, cap)
    return sgn(rng, a), sgn(rng, b)


def hx(n):
    return "%x" % n if n >= 0 else "-%x" % -n


def rx(q):
    return hx(q.numerator) + "/" + hx(q.denominator)


def S(s):
    return "s" + (s.encode() if isinstance(s, str) else bytes(s)).hex()


def ints_near(rng, bits):
    """machine-int boundary values around +-2^bits"""
    return rng.choice([1, -1]) * (1 << bits) + rng.choice([-2, -1, 0, 1, 2, rng.randrange(-1000, 1000)])


def huge(rng):
    """thousands of limbs, up to and beyond 2^16 of them: for operations of linear cost"""
    n = rng.choice([1023, 4096, 65535, 65536, 65537, rng.randrange(1000, 9000), rng.randrange(9000, 70000)])
    k = rng.randrange(4)
    if k == 0:
        return rng.getrandbits(32 * n) | 1 << (32 * n - 1)
    if k == 1:
        return (1 << (32 * n + rng.choice([-1, 0, 1, rng.randrange(-33, 33)]))) + rng.choice([-1, 0, 0, 1, u32(rng)])
    if k == 2:
        return (uint(rng, 5) or 1) << (32 * n - rng.randrange(64))
    a = rng.getrandbits(32 * n)
    for _ in range(3):
        j, w = rng.randrange(32 * n), rng.randrange(32 * n)
        a = a | ((1 << w) - 1) << j if rng.random() < .5 else a & ~(((1 << w) - 1) << j)
    return a


def wide(rng):
    """a rational far outside the range of any machine number: one side short, the other up to 100 limbs"""
    s, l = shaped(rng, rng.choice([1, 1, 2, 3])), rng.choice([9, 16, 31, 33, 38, 40, 64, 66, 80, 100])
    b = rng.choice([1 << (32 * l - rng.randrange(33)), 1 << (32 * l - rng.randrange(33)), 10 ** (9 * l), shaped(rng, l) or 1])
    q = Fraction(sgn(rng, rng.choice([1, 1, s or 1])), b)
    return q if rng.random() < .6 else 1 / q


def frac(rng, cap=20, far=.03):
    """a reduced rational"""
    if rng.random() < far:
        return wide(rng)
    h = hint(rng, .05)
    if h is not None and h:
        return rng.choice([Fraction(sgn(rng, h)), Fraction(sgn(rng, 1), abs(h)), Fraction(sgn(rng, uint(rng, 2)), abs(h)), Fraction(sgn(rng, h), uint(rng, 2) or 1), Fraction(1, 2) ** min(abs(h), 5000), Fraction(sgn(rng, 2 * h + 1), 2)])
    k = rng.randrange(12)
    if k == 0:
        return Fraction(rng.randrange(-50, 51))
    if k <= 2:
        return Fraction(rng.randrange(-200, 201), rng.randrange(1, 200))
    if k == 3:
        return Fraction(sgn(rng, uint(rng, cap)))
    if k == 4:
        return Fraction(sgn(rng, 1), uint(rng, cap) or 1)
    if k == 5:      # dyadic
        return Fraction(sgn(rng, uint(rng, cap)), 1 << rng.randrange(0, 64 * min(cap, 8)))
    if k == 6:      # decimal
        return Fraction(sgn(rng, uint(rng, cap)), 10 ** rng.randrange(0, 40))
    if k == 7:      # near an integer or a half
        n = sgn(rng, uint(rng, min(cap, 3)))
        d = uint(rng, cap) or 1
        return Fraction(2 * n + rng.choice([0, 1]), 2) + rng.choice([0, Fraction(1, d), -Fraction(1, d)])
    if k == 8:
        a = uint(rng, cap) or 1
        return Fraction(sgn(rng, a), a + rng.choice([-1, 1, 2]) if a > 2 else a + 1)
    g = uint(rng, max(1, cap // 3)) or 1
    return Fraction(sgn(rng, uint(rng, cap)), uint(rng, cap) or 1) * Fraction(g, rng.choice([1, g * g, 2, 3]))


def fpair(rng, cap=20, far=.03):
    k = rng.randrange(10)
    a = frac(rng, cap, far)
    if k <= 3:
        return a, frac(rng, cap, far)
    if k == 4:
        return a, a
    if k == 5:
        return a, -a
    if k == 6:
        return a, 1 / a if a else a
    if k == 7:      # same denominator
        return a, Fraction(sgn(rng, uint(rng, cap)), a.denominator)
    if k == 8:      # denominators sharing factors
        return a, Fraction(sgn(rng, uint(rng, cap)), a.denominator * (uint(rng, 2) or 1))
    return a, a + rng.choice([1, -1]) * Fraction(1, uint(rng, cap) or 1)


def lattice(n):
    """every canonical integer with up to n limbs taken from the boundary set"""
    base = [0, 1, 0x7fffffff, 0x80000000, 0xffffffff]
    out = [0]
    level = [0]
    vals = {0}
    for ln in range(1, n + 1):
        import itertools
        for t in itertools.product(base, repeat=ln):
            vals.add(from_limbs(list(t)))
    return sorted(vals)
