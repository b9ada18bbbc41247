"""Integers and text: print/parse round trips, the literal grammar, scientific notation."""
import re
from .core import Case, want, want_if
from .gen import *

GRAM = {
    10: re.compile(r"(0_*|[1-9][0-9_]*)\Z"),
    16: re.compile(r"0[xX]([0-9a-fA-F_]*[0-9a-fA-F][0-9a-fA-F_]*)\Z"),
    8: re.compile(r"0[oO]([0-7_]*[0-7][0-7_]*)\Z"),
    2: re.compile(r"0[bB]([01_]*[01][01_]*)\Z"),
}
# outside the documented grammar, but which of error / value is not documented
AMBIG = re.compile(r"0_+[xXoObB]|0[xXoObB]_+\Z")


def value(s):
    """the value of a literal, or None"""
    for base, g in GRAM.items():
        m = g.match(s)
        if m:
            return int(m.group(1).replace("_", "") or "0", base)
    return None


def parse_case(rng, kind, s):
    neg = kind == "b" and s.startswith("-")
    t = s[1:] if neg else s
    if AMBIG.match(t):
        return None
    v = value(t)
    op = rng.choice([kind + ".from_str", kind + ".from_string"])
    if v is None:
        def p(x):
            xs = x[1:-1].split(",") if x[0] == "[" else [x]
            return all(y.startswith("E") for y in xs)
        return Case(op, [S(s)], want_if(p, "an error"), "malformed")
    v = -v if neg else v
    o = hx(v)
    return Case(op, [S(s)], want("[%s,%s,%s]" % (o, o, o) if op.endswith("from_str") else o), "literal")


def under(rng, s, first_ok):
    """sprinkle underscores"""
    out = []
    for i, ch in enumerate(s):
        if (i > 0 or first_ok) and rng.random() < .15:
            out.append("_" * rng.randrange(1, 3))
        out.append(ch)
    if rng.random() < .1:
        out.append("_")
    return "".join(out)


def literal(rng, n):
    b = rng.choice([10, 10, 10, 16, 8, 2])
    if b == 10:
        s = str(n)
        return under(rng, s, False) if rng.random() < .4 else s
    d = {16: "%x", 8: "%o"}[b] % n if b != 2 else bin(n)[2:]
    if b == 16:
        d = "".join(c.upper() if rng.random() < .5 else c for c in d) if rng.random() < .5 else d
    if rng.random() < .3:
        d = "0" * rng.choice([rng.randrange(1, 12), rng.randrange(1, 12), rng.randrange(12, 80)]) + d
    if rng.random() < .4:
        d = under(rng, d, True)
    return "0" + {16: "xX", 8: "oO", 2: "bB"}[b][rng.randrange(2)] + d


BAD = ["", "-", "--1", "+1", "01", "00", "1 ", " 1", "0x", "0b", "0o", "0xg", "0b2", "0o8", "1.", ".1", "1e5", "1a", "_1", "-_1", "-+1", "1-", "x", "0y1",
       "0x1.", "0x-1", "0b102", "\u0661", "1\u06612", "０", "①", "0x１", "1\n", "\0", "0xx1", "0x1x", "--0x1", "-01", "0b", "-0x", "é", "0é"]


def sci_ok(n, k, t):
    """documented shape: [-]d(.ddd)?eN, a truncated prefix of the digits"""
    s = str(abs(n))
    m = re.match(r"(-?)(\d)(?:\.(\d*[1-9]))?e(\d+)\Z", t)
    if not m or (m.group(1) == "-") != (n < 0) or int(m.group(4)) != len(s) - 1:
        return False
    d = m.group(2) + (m.group(3) or "")
    if len(d) > max(k, 1) or not s.startswith(d):
        return False
    # only trailing zeros are dropped before the limit; very long numbers are
    # given to at least 10 digits
    return any(d == (s[:j].rstrip("0") or "0") for j in range(min(k, 10), k + 1))


def workload(rng, tier, shard, nshards):
    n = 150000 if tier == "quick" else 1800000
    for s in BAD:
        for kind in "ub":
            c = parse_case(rng, kind, s)
            if c:
                yield c
    for _ in range(4 if tier == "quick" else 20):
        a = huge(rng)
        f, px, v = rng.choice([("hex", "0x", "%x" % a), ("bin", "0b", bin(a)[2:])])
        yield Case(f"u.to_string_{f}", [hx(a), "0"], want(S(v)), "huge")
        a = rng.getrandbits(rng.randrange(5000, 40000)) | 1
        d, h = str(a), "0x%x" % a
        yield Case("b.to_string_dec", [hx(-a)], want(S("-" + d)), "huge")
        for s in (d, h):
            yield parse_case(rng, rng.choice("ub"), s)
    # exhaustive: every string of up to 4 characters over a small alphabet
    alpha = "01_xb9-"
    allw = [""]
    words = [""]
    for _ in range(4 if tier == "quick" else 5):
        words = [w + c for w in words for c in alpha]
        allw += words
    for w in allw[shard::nshards]:
        for kind in "ub":
            c = parse_case(rng, kind, w)
            if c:
                yield c
    for i in range(n):
        kind = rng.choice("ub")
        a = uint(rng, rng.choice([1, 2, 4, 12, 40, rng.choice([40, 66, 131])]))
        if rng.random() < .2:
            a = max(0, 10 ** rng.choice([rng.randrange(1, 120), rng.randrange(1, 120), rng.randrange(1, 120), rng.randrange(120, 800)]) + rng.choice([-1, 0, 1, 10 ** rng.randrange(0, 30)]))
        if kind == "b":
            a = sgn(rng, a)
        m, sgs = abs(a), "-" if a < 0 else ""
        d, h, o, b = str(a), "%x" % m, "%o" % m, bin(m)[2:]
        k = rng.randrange(10)
        if k == 0:
            yield Case(kind + ".to_string_dec", [hx(a)], want(S(d)))
        elif k <= 2:
            f, px, v = rng.choice([("hex", "0x", h), ("oct", "0o", o), ("bin", "0b", b)])
            p = rng.randrange(2)
            yield Case(f"{kind}.to_string_{f}", [hx(a), str(p)], want(S(sgs + (px if p else "") + v)))
        elif k == 3:
            v = [d, sgs + h, sgs + "0x" + h, sgs + o, sgs + "0o" + o, sgs + b, sgs + "0b" + b]
            yield Case(kind + ".fmt", [hx(a)], want("[" + ",".join(map(S, v)) + "]"))
        elif k <= 6:
            s = sgs + literal(rng, m)
            c = parse_case(rng, kind, s)
            if c:
                yield c
            # one mutated character
            if s:
                j = rng.randrange(len(s))
                t = s[:j] + rng.choice(["", rng.choice("0123456789abcdefxXoObB_-+. g\u0663")]) + s[j + rng.randrange(2):]
                c = parse_case(rng, kind, t)
                if c:
                    yield c
        elif k <= 8:
            q = max(1, size(rng, [1, 2, 3, 5, 8, 10, rng.randrange(1, 30), rng.randrange(1, 120)], 2000))
            yield Case(kind + ".to_scientific_notation", [hx(a), str(q)],
                       want_if(lambda t, a=a, q=q: sci_ok(a, q, bytes.fromhex(t[1:]).decode()), f"scientific notation of {d[:60]} with at most {q} digits"), "scientific")
        else:
            yield Case(kind + ".fmt_e", [hx(a)], want_if(lambda t, a=a: any(sci_ok(a, q, bytes.fromhex(t[1:]).decode()) for q in range(3, 25)), f"scientific notation of {d[:60]}"), "scientific")
