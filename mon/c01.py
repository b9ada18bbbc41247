"""Integer ring arithmetic is exact, in every variant."""
from .core import Case, want, want_panic
from .gen import *


def case_u2(rng, a, b):
    A, B = hx(a), hx(b)
    k = rng.randrange(10)
    if k < 2:
        return Case(rng.choice(["u.add", "u.add_mut"]), [A, B], want(hx(a + b)))
    if k < 6:
        return Case(rng.choice(["u.mul", "u.mul_mut"]), [A, B], want(hx(a * b)))
    if k < 9:
        return Case(rng.choice(["u.sub", "u.sub_mut"]), [A, B], want(hx(a - b)) if a >= b else want_panic, "sub" if a >= b else "sub underflow")
    return Case("u.abs_diff", [A, B], want(hx(abs(a - b))))


def case_u32(rng, a, w):
    A, B = hx(a), str(w)
    k = rng.randrange(8)
    if k < 2:
        return Case(rng.choice(["u.add_u32", "u.add_u32_mut"]), [A, B], want(hx(a + w)))
    if k < 4:
        return Case(rng.choice(["u.mul_u32", "u.mul_u32_mut"]), [A, B], want(hx(a * w)))
    if k < 7:
        return Case(rng.choice(["u.sub_u32", "u.sub_u32_mut"]), [A, B], want(hx(a - w)) if a >= w else want_panic, "sub" if a >= w else "sub underflow")
    return Case("u.abs_diff_u32", [A, B], want(hx(abs(a - w))))


def case_b2(rng, a, b):
    A, B = hx(a), hx(b)
    f, v = rng.choice([("add", a + b), ("sub", a - b), ("mul", a * b)])
    return Case("b." + f + rng.choice(["", "_mut"]), [A, B], want(hx(v)))


def case_b32(rng, a, w):
    f, v = rng.choice([("add", a + w), ("sub", a - w), ("mul", a * w)])
    return Case("b." + f + "_i32" + rng.choice(["", "_mut"]), [hx(a), str(w)], want(hx(v)))


def exps(rng, a):
    bl = max(1, a.bit_length())
    lim = max(1, 6000 // bl)
    x = rng.random()
    if x < 0.3:
        return rng.randrange(0, min(8, lim + 1))
    return rng.randrange(0, min(lim, 300) + 1)


def case_misc(rng):
    k = rng.randrange(16)
    if rng.random() < .004:         # long powers: squarings beyond several hundred limbs
        a = sgn(rng, uint(rng, rng.choice([1, 1, 2, 9, 40, 100])))
        e = max(1, min(4000, rng.randrange(6000, 60000) // max(1, a.bit_length())))
        p = rng.choice("ub")
        a = abs(a) if p == "u" else a
        return Case(p + rng.choice([".pow_u32", ".pow_u32_mut"]), [hx(a), str(e)], want(hx(a ** e)), "long power")
    if rng.random() < .02:          # products of numbers with empty halves and quarters
        a, b = ((uint(rng, 20) << (32 * rng.choice([32, 33, 63, 64, 65, 66, 70, 128, 130]))) + rng.choice([0, 0, uint(rng, 20), uint(rng, 64)]) for _ in "ab")
        return Case(rng.choice(["u.mul", "u.mul_mut"]), [hx(a), hx(b)], want(hx(a * b)), "empty halves")
    if k <= 1:
        a = uint(rng, rng.choice([1, 1, 2, 4, 20]))
        e = exps(rng, a)
        if a < 2 and rng.random() < 0.5:
            e = rng.choice([0, 1, 31, 32, 1000, 1 << 20, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, MASK])
        return Case(rng.choice(["u.pow_u32", "u.pow_u32_mut"]), [hx(a), str(e)], want(hx(a ** e)))
    if k == 2:
        a = sgn(rng, uint(rng, rng.choice([1, 1, 2, 4, 20])))
        e = exps(rng, a)
        return Case(rng.choice(["b.pow_u32", "b.pow_u32_mut"]), [hx(a), str(e)], want(hx(a ** e)))
    if k <= 4:
        e = rng.choice([rng.randrange(0, 140), rng.randrange(0, 3000), 32 * rng.randrange(0, 40) + rng.choice([-1, 0, 1]) if rng.random() < .9 else 31])
        e = max(0, e)
        return Case(rng.choice(["u.pow2", "u.exp2", "b.pow2", "b.exp2"]), [str(e)], want(hx(1 << e)))
    if k <= 7:
        a = uint(rng)
        e = rng.choice([rng.randrange(0, 70), rng.randrange(0, 2000), max(0, 32 * rng.randrange(0, 40) + rng.choice([-1, 0, 0, 1]))])
        p = rng.choice("ub")
        if p == "b":
            a = sgn(rng, a)
        return Case(p + rng.choice([".mul_pow2", ".mul_pow2_mut"]), [hx(a), str(e)], want(hx(a << e)))
    if k <= 12:
        a = uint(rng)
        n = max(1, (a.bit_length() + 31) // 32)
        s = rng.randrange(0, n + 4)
        p = rng.choice("ub")
        sg = -1 if p == "b" and rng.random() < .5 else 1
        f = rng.choice(["shift_left", "shift_right", "slice_right"])
        if f == "shift_left":
            v = a << (32 * s)
        elif f == "shift_right":
            v = a >> (32 * s)
        else:
            v = a & ((1 << (32 * s)) - 1)
        j = want(hx(sg * v))
        if f == "slice_right" and s > n:
            j = want_panic
        return Case(p + "." + f + rng.choice(["", "_mut"]), [hx(sg * a), str(s)], j)
    if k == 13:
        v = [uint(rng, rng.choice([1, 4, 30])) for _ in range(rng.randrange(0, 9))]
        if rng.random() < .5:
            return Case("u.sum", ["[" + ",".join(map(hx, v)) + "]"], want(hx(sum(v))))
        p = 1
        for x in v:
            p *= x
        return Case("u.product", ["[" + ",".join(map(hx, v)) + "]"], want(hx(p)))
    if k == 14:
        a = uint(rng)
        f, v = rng.choice([("u.mul_self", a * a), ("u.add_self", 2 * a), ("u.sub_self", 0), ("b.mul_self", a * a), ("b.sub_self", 0)])
        if f[0] == "b":
            a = sgn(rng, a)
        return Case(f, [hx(a)], want(hx(v)))
    a = sgn(rng, uint(rng))
    f, v = rng.choice([("neg", -a), ("abs", abs(a))])
    return Case("b." + f + rng.choice(["", "_mut"]), [hx(a)], want(hx(v)))


def huge_case(rng):
    a = huge(rng)
    n = (a.bit_length() + 31) // 32
    k = rng.randrange(7)
    if k == 0:
        return case_u32(rng, a, u32(rng) or 1)
    if k == 1:
        return case_b32(rng, sgn(rng, a), i32(rng))
    if k == 2:
        b = rng.choice([huge(rng), a, a + 1, uint(rng, 5), 1 << rng.randrange(a.bit_length() + 1)])
        p, x = rng.choice([("add", a + b), ("add_mut", a + b), ("sub", a - b), ("sub_mut", a - b)])
        if x < 0:
            return Case("b." + p, [hx(a), hx(b)], want(hx(x)), "huge")
        return Case(rng.choice("ub") + "." + p, [hx(a), hx(b)], want(hx(x)), "huge")
    if k == 3:
        e = rng.choice([(1 << 21) + rng.randrange(-40, 40), rng.randrange(1 << 22)])
        if rng.random() < .5:
            return Case(rng.choice(["u.pow2", "u.exp2", "b.pow2", "b.exp2"]), [str(e)], want(hx(1 << e)), "huge")
        b = uint(rng, 3)
        return Case(rng.choice(["u.mul_pow2", "u.mul_pow2_mut", "b.mul_pow2", "b.mul_pow2_mut"]), [hx(b), str(e)], want(hx(b << e)), "huge")
    if k == 4:
        b, s = uint(rng, 3) or 1, rng.choice([65535, 65536, 65537, rng.randrange(1000, 80000)])
        return Case(rng.choice(["u.shift_left", "u.shift_left_mut", "b.shift_left", "b.shift_left_mut"]), [hx(b), str(s)], want(hx(b << 32 * s)), "huge")
    if k == 5:
        s = rng.choice([n - 1, n, n + 1, rng.randrange(n + 1)])
        return Case(rng.choice(["u.shift_right", "u.shift_right_mut", "b.shift_right"]), [hx(a), str(s)], want(hx(a >> 32 * s)), "huge")
    s = rng.choice([n - 1, n, rng.randrange(n + 1)])
    return Case(rng.choice(["u.slice_right", "u.slice_right_mut"]), [hx(a), str(s)], want(hx(a & ((1 << (32 * s)) - 1))), "huge")


def workload(rng, tier, shard, nshards):
    for _ in range(24 if tier == "quick" else 200):
        yield huge_case(rng)
    n = 260000 if tier == "quick" else 3120000
    # fixed values
    yield Case("u.consts", ["0"], want("[0,1,0]"))
    yield Case("b.consts", ["0"], want("[0,1,0]"))
    # the boundary lattice, split over shards: carries and borrows through
    # every combination of extreme limbs
    L = lattice(3)
    pairs = [(a, b) for a in L for b in L]
    mine = pairs[shard::nshards]
    if tier == "quick":
        mine = rng.sample(mine, min(len(mine), 700))
    for a, b in mine:
        for op, v in (("u.add", a + b), ("u.add_mut", a + b), ("u.mul", a * b), ("u.mul_mut", a * b), ("u.abs_diff", abs(a - b))):
            yield Case(op, [hx(a), hx(b)], want(hx(v)), "lattice")
        for op in ("u.sub", "u.sub_mut"):
            yield Case(op, [hx(a), hx(b)], want(hx(a - b)) if a >= b else want_panic, "lattice")
        for op, v in (("b.add", a - b), ("b.sub", a + b), ("b.mul", -a * b), ("b.add_mut", a - b), ("b.sub_mut", a + b), ("b.mul_mut", -a * b)):
            yield Case(op, [hx(a), hx(-b)], want(hx(v)), "lattice")
    # every limb shift of a few numbers, every power of two up to 200
    for e in range(shard, 300, nshards):
        for op in ("u.pow2", "u.exp2", "b.pow2", "b.exp2"):
            yield Case(op, [str(e)], want(hx(1 << e)))
        yield Case("u.pow_u32", ["3", str(e)], want(hx(3 ** e)))
        yield Case("b.pow_u32_mut", ["-3", str(e)], want(hx((-3) ** e)))
        a = uint(rng, 6)
        yield Case("u.mul_pow2", [hx(a), str(e)], want(hx(a << e)))
        yield Case("u.mul_pow2_mut", [hx(a), str(e)], want(hx(a << e)))
    cap = 131 if tier == "quick" else 513
    for i in range(n):
        k = rng.randrange(10)
        c = cap if rng.random() < .93 else 513
        if k < 4:
            yield case_u2(rng, *upair(rng, c))
        elif k < 5:
            yield case_u32(rng, uint(rng), u32(rng))
        elif k < 7:
            yield case_b2(rng, *bpair(rng, c))
        elif k < 8:
            yield case_b32(rng, sgn(rng, uint(rng, 20)), i32(rng))
        else:
            yield case_misc(rng)
