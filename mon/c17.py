"""192-bit floats and text: parsing is within its error bound, printing is faithful to 19 digits, the 13-character code is
an inverse pair."""
import re
from .core import Case, want, want_if
from .gen import *
from .f192 import *

BATCH = 300
ALNUM = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
ZCODE = "zy00000000000"


def text(t):
    return bytes.fromhex(t[1:]).decode()


NUM = re.compile(r"(-?)(0|[1-9]\d*)(?:\.(\d+))?(?:e(-?\d+))?\Z")


def log10f(q):
    """floor(log10 |q|)"""
    q = abs(q)
    e = int((q.numerator.bit_length() - q.denominator.bit_length()) * 0.30103)
    while F(10) ** e > q:
        e -= 1
    while F(10) ** (e + 1) <= q:
        e += 1
    return e


def shown(q):
    """judge for the printed form of q"""
    def p(t):
        s = text(t)
        m = NUM.match(s)
        if not m:
            return False
        if q == 0:
            return s == "0"
        if (m.group(1) == "-") != (q < 0):
            return False
        fr = m.group(3) or ""
        if fr.endswith("0"):
            return False
        v = F(int(m.group(2) + fr), 10 ** len(fr)) * F(10) ** int(m.group(4) or 0)
        if m.group(4) is not None and (len(m.group(2)) != 1 or m.group(2) == "0"):
            return False
        tol = F(101, 100) * F(10) ** (log10f(q) - 18)
        if m.group(4) is None and m.group(2) == "0":
            tol += F(1, 10 ** 20)
        return abs(abs(q) - v) <= tol
    return want_if(p, "the decimal expansion, 19 significant digits")


def shown_big(q, k):
    """the same for q*2^k with a big k; decided by logarithms at high precision"""
    import mpmath as mp

    def p(t):
        s = text(t)
        m = NUM.match(s)
        if not m or m.group(4) is None or len(m.group(2)) != 1 or (m.group(1) == "-") != (q < 0):
            return False
        with mp.workprec(320):
            x = mp.log(mp.mpf(abs(q.numerator)) / q.denominator) + k * mp.ln2
            d = mp.mpf(int(m.group(2) + (m.group(3) or ""))) / mp.mpf(10) ** len(m.group(3) or "")
            y = mp.log(d) + int(m.group(4)) * mp.log(10)
            # relative error of the printed digits
            return abs(mp.expm1(y - x)) <= mp.mpf("1.01e-18") + mp.mpf(2) ** -118 * (1 + abs(k))
    return want_if(p, "the decimal expansion, 19 significant digits")


def dec(rng):
    """a decimal literal and its exact value"""
    n = max(1, size(rng, [1, 2, 3, 6, 7, 12, 13, 18, 19, 20, 36, 37, 38, 39, 40, 45, 60, rng.randrange(1, 90)], 2000))
    if rng.random() < .04:
        n = rng.choice([100, 128, 200, 255, 256, 257, 294, 295, 296, 300, 512, rng.randrange(90, 1200)])
    a = str(rng.randrange(1, 10)) + "".join(rng.choice(rng.choice(["0123456789", "09", "0000001"])) for _ in range(n - 1))
    k = rng.randrange(8)
    e = 0
    if k == 0:
        i, f = a, ""
    elif k <= 3:
        p = rng.randrange(1, n + 1)
        i, f = a[:p], a[p:]
    elif k <= 5:
        i, f = "0", "0" * rng.choice([0, 0, 1, 2, 7, 8, 20, rng.randrange(0, 60), rng.randrange(0, 60), rng.randrange(60, 700)]) + a
    elif k == 6:
        i, f = a, "0" * rng.randrange(1, 8)
    else:
        i, f = "0", "0" * rng.randrange(1, 50)
    s = i + ("." + f if f else "")
    if rng.random() < .5:
        e = rng.choice([0, 1, -1, rng.randrange(-9, 10), rng.randrange(-60, 61), rng.randrange(-400, 400), rng.randrange(-3000, 3000)])
        s += rng.choice("eE") + str(e)
    if rng.random() < .2:
        t = ""
        for j, c in enumerate(s):
            t += c
            if c.isdigit() and j > 0 and "e" not in s[:j] and "E" not in s[:j] and rng.random() < .3:
                t += "_" * rng.randrange(1, 3)
        s = t
    v = F(int(i + f), 10 ** len(f)) * F(10) ** e
    eff = e - len(f)
    if len(i + f) > 39:
        eff += len((i + f).lstrip("0")) - 39 if len((i + f).lstrip("0")) > 39 else 0
    exact = eff == 0 and len((i + f).lstrip("0")) <= 38
    if rng.random() < .4:
        s, v = "-" + s, -v
    return s, v, eff, exact


BAD = ["", "-", "--1", "--", ".", "-.", ".5", "-.5", "a", "1a", "1.5.2", "1..2", "01", "-01", "00", "0_1", "1.5f", "0x1.5", "0xg", "0b2", "0o8", "-0xz", "0b1e5", "1 ", " 1", "1,5", "1e5e5", "1e1.5",
       "1e--1", "1ex", "inf", "nan", "1/2", "e5", "-e5", "_1", "0a", "1-", "1.-5", "1.5-", "٥", "1.٥", "0x-1", "1e1_0", "1e99999999999999999999", "0.5x", "0e1x", "0xG1", "12345678z", "0b012", "0o78"]


def code_val(rng):
    k = rng.randrange(7)
    if k == 0:
        return val(rng, -1890, 1890)
    if k == 6:
        # either side of where the code's mantissa wraps (31 * 62^10 units)
        m = (31 * 62 ** 10) << 63
        m += rng.choice([1, -1]) * rng.choice([0, 1, 1 << 57, (1 << 61) - 1, 1 << 61, rng.getrandbits(rng.randrange(1, 64))])
        return F(m) * F(2) ** rng.randrange(-900, 700) * rng.choice([1, -1])
    if k == 1:
        return val(rng, -64, 64)
    if k == 2:
        return F(rng.randrange(-2000, 2001))
    if k == 3:
        # digit patterns around the cut of the code's mantissa
        m = (1 << 127) | (rng.getrandbits(62) << 65) | rng.choice([0, 1 << 64, (1 << 64) - 1, (1 << 64) + 1, rng.getrandbits(65)])
        return F(m) * F(2) ** rng.randrange(-300, 100) * rng.choice([1, -1])
    return any_val(rng)


def code_enc(q):
    def p(t):
        b = bytes.fromhex(t[1:])
        return 1 <= len(b) <= 13 and all(chr(c) in ALNUM for c in b)
    return want_if(p, "1 to 13 characters of 0-9a-zA-Z")


def one(rng):
    k = rng.randrange(20)
    if k < 7:
        s, v, eff, exact = dec(rng)
        if v == 0:
            yield Case("f.from_str", [S(s)], near_ulps(F(0), 0, True), "literal")
        else:
            yield Case("f.from_str", [S(s)], near_ulps(v, 12 + abs(eff) // 8 + (abs(eff) > 0) * 4, exact), "literal")
    elif k < 9:
        base, pre, dig = rng.choice([(16, "xX", "0123456789abcdefABCDEF"), (8, "oO", "01234567"), (2, "bB", "01")])
        b = {16: 4, 8: 3, 2: 1}[base]
        n = rng.choice([rng.randrange(1, 128 // b + 1), rng.randrange(1, 3 * 128 // b)])
        d = "".join(rng.choice(rng.choice([dig, dig[-1] + "0"])) for _ in range(n))
        if rng.random() < .35:      # runs of one digit, whole words of zeros
            d = "".join(rng.choice([dig[1], dig[-1], "0", "0", rng.choice(dig)]) * rng.choice([1, 1, 2, 7, 14, 15, 16, 28, 56, 57, rng.randrange(1, 60)]) for _ in range(rng.randrange(1, 6)))
            n = len(d)
        v = F(int(d, base))
        s = "0" + rng.choice(pre) + d
        if rng.random() < .3:
            p = rng.randrange(3, len(s) + 1)
            s = s[:p] + "_" + s[p:]
        if rng.random() < .4:
            s, v = "-" + s, -v
        if v == 0:
            yield Case("f.from_str", [S(s)], near_ulps(v, 0, True), "based")
        else:
            yield Case("f.from_str", [S(s)], near_ulps(v, 2 + 8 * (n * b // 56), v.numerator.bit_length() <= 128), "based")
    elif k < 10:
        s = rng.choice(BAD)
        if rng.random() < .5:
            s, v, eff, exact = dec(rng)
            i = rng.randrange(len(s) + 1)
            s = s[:i] + rng.choice(["x", " ", "-", "+", "g", "é", "\0", "/", ":"]) + s[i:]
            if not re.match(r"-?0x?", s) or "x" not in s[:3]:
                if i == 0 and s[0] == "-" and s[1] != "-":
                    return
                if "e" in s.lower() and s.lower().index("e") < i and s[i] in "+-" and s[i - 1] in "eE":
                    return
                yield Case("f.from_str", [S(s)], want_if(lambda t: t.startswith("E"), "an error"), "malformed")
        else:
            yield Case("f.from_str", [S(s)], want_if(lambda t: t.startswith("E"), "an error"), "malformed")
    elif k < 16:
        m = rng.randrange(8)
        if m == 0:
            q = F(rng.choice([rng.randrange(10 ** rng.randrange(1, 25)), 10 ** rng.randrange(0, 25) + rng.choice([-1, 0, 1])]) * rng.choice([1, -1]))
        elif m <= 2:      # close to a decimal tie or to a power of ten
            n = rng.randrange(10 ** 18, 10 ** 19) * 10 + rng.choice([5, 0, 9, 4])
            if rng.random() < .3:
                n = 10 ** 20 - rng.choice([1, 4, 5, 6, 49, 50, 51])
            e = rng.randrange(-60, 30)
            r = F(n) * F(10) ** e
            u = ulp(r)
            q = F(int(r / u) + rng.choice([-1, 0, 1, rng.randrange(-10 ** 6, 10 ** 6)])) * u
            if not representable(q):
                return
        elif m == 3:      # decimals that people write
            r = F(rng.randrange(-10 ** 6, 10 ** 6), 10 ** rng.randrange(0, 14))
            if r == 0:
                return
            q = F(round(r / ulp(r))) * ulp(r)
            if not representable(q):
                return
        else:
            q = any_val(rng)
        yield Case(rng.choice(["f.display", "f.to_approx_string"]), [fx(q)], shown(q), "print")
    elif k < 17:
        q = val(rng, 0, 0)
        kk = rng.choice([1, -1]) * rng.choice([rng.randrange(3000, 10 ** 5), rng.randrange(10 ** 5, 10 ** 7), rng.randrange(10 ** 7, 2 ** 33)])
        yield Case(rng.choice(["f.display", "f.to_approx_string"]), [fx(q, kk)], shown_big(q, kk), "print huge")
    elif k < 19:
        q = code_val(rng)
        l = flog2(q) if q else 0
        if q == 0:
            yield Case("f.code13", ["0/1"], want(S(ZCODE)), "code13")
            yield Case("f.code13_round", ["0/1"], want("0/1"), "code13")
        elif abs(l) <= 1900:
            def p(t, q=q):
                g, gk = parse(t)
                return abs(g * F(2) ** gk - q) <= abs(q) / (1 << 64)
            yield Case("f.code13_round", [fx(q)], want_if(p, "the value to 64 bits"), "code13")
            yield Case("f.code13", [fx(q)], code_enc(q), "code13")
        elif l > 1930:
            yield Case("f.code13", [fx(q)], want_if(lambda t: t.startswith("E"), "an error"), "code13 out of range")
        elif l < -1930:
            yield Case("f.code13_round", [fx(q)], want("0/1"), "code13 out of range")
    else:
        m = rng.randrange(4)
        if m == 0:
            n = rng.choice([14, 15, 20, 40])
            s = "".join(rng.choice(ALNUM) for _ in range(n))
            yield Case("f.from_code13", [S(s)], want_if(lambda t: t.startswith("E"), "an error"), "code13 malformed")
        elif m == 1:
            n = rng.randrange(1, 14)
            s = list("".join(rng.choice(ALNUM) for _ in range(n)).encode())
            s[rng.randrange(n)] = rng.choice([ord(c) for c in "-_+/@[`{:. \n\0~"] + [128, 200, 255])
            yield Case("f.from_code13", [S(bytes(s))], want_if(lambda t: t.startswith("E"), "an error"), "code13 malformed")
        else:
            yield code_text(rng, "".join([rng.choice(ALNUM[1:])] + [rng.choice(rng.choice([ALNUM, "0Z", "0"])) for _ in range(rng.randrange(0, 13))]))


def code_text(rng, s):
    return Case("f.code13_text", [S(s)], want(S(s)), "code13 inverse")


def workload(rng, tier, shard, nshards):
    n = 96000 if tier == "quick" else 1152000
    for i, s in enumerate(BAD):
        if i % nshards == shard:
            yield Case("f.from_str", [S(s)], want_if(lambda t: t.startswith("E"), "an error"), "malformed")
    if shard == 0:
        yield Case("f.from_code13", [S("")], want_if(lambda t: t.startswith("E"), "an error"), "code13 malformed")
        yield Case("f.from_str", [S("0")], want("0/1"), "literal")
        yield Case("f.from_str", [S("-0")], want("0/1"), "literal")
        yield Case("f.from_str", [S("-0.0")], want("0/1"), "literal")
        yield Case("f.display", ["0/1"], want(S("0")), "print")
    # every code of one or two characters, and every exponent field
    i = 0
    for a in ALNUM:
        for b in [""] + list(ALNUM):
            if a + b == "0" or (a == "0" and b):
                continue
            i += 1
            if i % nshards == shard:
                yield code_text(rng, a + b)
                yield code_text(rng, a + b + "".join(rng.choice(ALNUM) for _ in range(11)))
    for e in range(-320 + shard, 320, nshards):
        for q in (F(2) ** e, F(10) ** e):
            if representable(q):
                yield Case("f.display", [fx(q)], shown(q), "print")
        s = "1e%d" % e
        yield Case("f.from_str", [S(s)], near_ulps(F(10) ** e, 16 + abs(e) // 8), "literal")
    for _ in range(n):
        yield from one(rng)
