"""Exact matrix algebra: sums, products, transposes, determinants, inverses, dimension errors."""
from fractions import Fraction
from .core import Case, want, want_if
from .gen import *

F = Fraction


def cells(M, cols):
    return "[" + ";".join((",".join(map(rx, r)) if r else "_") for r in M) + "]"


def rs(q):
    return str(q.numerator) + ("/" + str(q.denominator) if q.denominator != 1 else "")


def mout(M, r, c):
    s = "[" + ", ".join("[" + ", ".join(map(rs, row)) + "]" for row in M) + "]"
    return f"{cells(M, c)} {S(s)} b1 b{int(r == c)}"


def err(*names):
    return want_if(lambda t: t.split(" ")[0] in names and (len(t.split(" ")) == 1 or t.split(" ")[1] == "b1"), " or ".join(names) + " and the operand unchanged")


def rand(rng, r, c, kind=None):
    kind = rng.randrange(7) if kind is None else kind
    def e():
        if kind <= 1:
            return F(rng.randrange(-4, 5))
        if kind == 2:
            return F(rng.randrange(0, 3))
        if kind == 3:
            return frac(rng, 2, 0)
        if kind == 4:
            return F(rng.randrange(-30, 31), rng.randrange(1, 12))
        if kind == 5:
            return F(0) if rng.random() < .6 else F(rng.randrange(-9, 10), rng.randrange(1, 4))
        return F(sgn(rng, uint(rng, 3)))
    M = [[e() for _ in range(c)] for _ in range(r)]
    if r and c and r * c <= 16 and rng.random() < .03:
        M[rng.randrange(r)][rng.randrange(c)] = wide(rng)
    return M


def singularise(rng, M):
    """make the rows dependent"""
    n = len(M)
    if n == 1:
        M[0][0] = F(0)
        return M
    i = rng.randrange(n)
    ks = [F(rng.randrange(-3, 4), rng.randrange(1, 3)) for _ in range(n)]
    M[i] = [sum((ks[j] * M[j][k] for j in range(n) if j != i), F(0)) for k in range(n)]
    if rng.random() < .3:
        return [list(x) for x in zip(*M)]
    return M


def det(M):
    M = [r[:] for r in M]
    n = len(M)
    d = F(1)
    for i in range(n):
        p = next((j for j in range(i, n) if M[j][i] != 0), None)
        if p is None:
            return F(0)
        if p != i:
            M[i], M[p] = M[p], M[i]
            d = -d
        d *= M[i][i]
        for j in range(i + 1, n):
            f = M[j][i] / M[i][i]
            if f:
                for k in range(i, n):
                    M[j][k] -= f * M[i][k]
    return d


def inv(M):
    n = len(M)
    A = [M[i][:] + [F(int(i == j)) for j in range(n)] for i in range(n)]
    for i in range(n):
        p = next(j for j in range(i, n) if A[j][i] != 0)
        A[i], A[p] = A[p], A[i]
        f = A[i][i]
        A[i] = [x / f for x in A[i]]
        for j in range(n):
            if j != i and A[j][i]:
                f = A[j][i]
                A[j] = [x - f * y for x, y in zip(A[j], A[i])]
    return [r[n:] for r in A]


def mul(A, B, r, m, c):
    return [[sum((A[i][k] * B[k][j] for k in range(m)), F(0)) for j in range(c)] for i in range(r)]


def T(M, r, c):
    return [[M[i][j] for i in range(r)] for j in range(c)]


def workload(rng, tier, shard, nshards):
    n = 20000 if tier == "quick" else 240000
    big = 6 if tier == "quick" else 7
    for r in range(0, 6):
        for c in range(0, 6):
            if (r * 6 + c) % nshards != shard or (r == 0 and c):
                continue
            yield Case("m.zeros", [str(r), str(c)], want(mout([[F(0)] * c for _ in range(r)], r, c)))
        yield Case("m.identity", [str(r)], want(mout([[F(int(i == j)) for j in range(r)] for i in range(r)], r, r)))
    yield Case("m.det", ["[]"], err("EEmptyMatrix"))
    yield Case("m.inverse", ["[]", "0"], err("EEmptyMatrix"))
    # every 0/1 permutation-like 3x3 pattern: determinants of all 512 0/1 matrices
    for code in range(shard, 512, nshards):
        M = [[F((code >> (3 * i + j)) & 1) for j in range(3)] for i in range(3)]
        d = det(M)
        yield Case("m.det", [cells(M, 3)], want(rx(d)), "all 0/1 3x3")
        yield Case("m.inverse", [cells(M, 3), "3"], want(mout(inv(M), 3, 3)) if d else err("EZeroDeterminant"), "all 0/1 3x3")
    # unit-position matrices: one entry per cofactor position, for every size
    for size in range(1, big + 1):
        for _ in range(2):
            p = list(range(size)); rng.shuffle(p)
            M = [[F(rng.randrange(1, 9)) if p[i] == j else F(0) for j in range(size)] for i in range(size)]
            yield Case("m.det", [cells(M, size)], want(rx(det(M))), "permutation")
            yield Case("m.inverse", [cells(M, size), str(size)], want(mout(inv(M), size, size)), "permutation")
    for i in range(n):
        k = rng.randrange(16)
        r, c, m = rng.randrange(1, 6), rng.randrange(1, 6), rng.randrange(1, 6)
        if rng.random() < .1:
            r, c, m = 1, 1, 1
        A = rand(rng, r, c)
        a = cells(A, c)
        if k < 2:
            B = rand(rng, r, c)
            Z = [[x + y for x, y in zip(p, q)] for p, q in zip(A, B)]
            yield Case(rng.choice(["m.add", "m.add_mut"]), [a, cells(B, c), str(r), str(c)], want(mout(Z, r, c)), "add")
        elif k == 2:
            r2, c2 = rng.randrange(1, 6), rng.randrange(1, 6)
            if (r2, c2) != (r, c):
                yield Case(rng.choice(["m.add", "m.add_mut"]), [a, cells(rand(rng, r2, c2), c2), str(r), str(c)], err("EWrongDimension"), "dimension error")
            else:
                B = rand(rng, r, c + 1)
                yield Case(rng.choice(["m.add", "m.add_mut"]), [a, cells(B, c + 1), str(r), str(c)], err("EWrongDimension"), "dimension error")
        elif k < 5:
            B = rand(rng, c, m)
            yield Case("m.mul", [a, cells(B, m), str(r), str(m)], want(mout(mul(A, B, r, c, m), r, m)), "mul")
        elif k == 5:
            r2 = rng.choice([x for x in range(1, 6) if x != c])
            yield Case("m.mul", [a, cells(rand(rng, r2, m), m), str(r), str(m)], err("EWrongDimension"), "dimension error")
        elif k == 6:
            q = rng.choice([F(0), F(1), F(-1), frac(rng, 3, 0)])
            w = i32(rng)
            if rng.random() < .7:
                yield Case(rng.choice(["m.mul_k", "m.mul_k_mut"]), [a, rx(q), str(r), str(c)], want(mout([[x * q for x in p] for p in A], r, c)), "scale")
            else:
                yield Case("m.mul_k_i32", [a, str(w), str(r), str(c)], want(mout([[x * w for x in p] for p in A], r, c)), "scale")
        elif k == 7:
            yield Case(rng.choice(["m.transpose", "m.transpose_mut"]), [a, str(c), str(r)], want(mout(T(A, r, c), c, r)), "transpose")
        elif k == 8:
            x = rng.randrange(4)
            if x == 0:
                yield Case("m.from_vec", [a, str(r), str(c)], want(mout(A, r, c)))
            elif x == 1:
                yield Case("m.generate", [a, str(r), str(c)], want(mout(A, r, c)))
            elif x == 2:
                v = [i32(rng) for _ in range(r * c)]
                yield Case("m.from_vec_generic", ["[" + ",".join(map(str, v)) + "]", str(r), str(c)], want(mout([[F(y) for y in v[j * c:(j + 1) * c]] for j in range(r)], r, c)))
            else:
                p, q, v = rng.randrange(r), rng.randrange(c), frac(rng, 3, 0)
                Z = [row[:] for row in A]
                Z[p][q] = v
                yield Case("m.get_mut", [a, str(p), str(q), rx(v), str(r), str(c)], want(mout(Z, r, c)))
        elif k == 9:
            rows = [[rx(frac(rng, 1, 0)) for _ in range(rng.randrange(0, 4))] for _ in range(rng.randrange(1, 5))]
            same = len({len(x) for x in rows}) == 1
            yield Case("m.from_vec_ragged", ["[" + ";".join(",".join(x) if x else "_" for x in rows) + "]"], want("ok") if same else err("EInconsistetRow"), "ragged")
            if r != c:
                yield Case("m.det", [a], err("ENotSquare"), "not square")
                yield Case("m.inverse", [a, "0"], err("ENotSquare"), "not square")
        else:
            s = rng.choice([1, 2, 2, 3, 3, 3, 4, 4, 4, 5, 5, big])
            M = rand(rng, s, s, None if s < 6 else 1)
            if rng.random() < .2:
                M = singularise(rng, M)
            d = det(M)
            if k < 13:
                yield Case("m.det", [cells(M, s)], want(rx(d)), f"det {s}x{s}")
            elif d == 0:
                yield Case("m.inverse", [cells(M, s), str(s)], err("EZeroDeterminant"), "singular")
            else:
                yield Case("m.inverse", [cells(M, s), str(s)], want(mout(inv(M), s, s)), f"inverse {s}x{s}")
