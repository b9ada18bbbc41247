"""A mixed stream of operation lines drawn from every other workload (the oracles of those are not used here)."""
import random, re
from fractions import Fraction
from collections import Counter

ALL = ["c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c14", "c15", "c16", "c17", "c18", "c20"]
SLOW = {"c14": 0.1, "c03": 0.15, "c12": 0.3, "c13": 0.3, "c07": 0.3}


TOK = re.compile(r"(?<![0-9a-f@.s])(-?)([0-9a-f]+)/([0-9a-f]+)(?![@0-9a-f])|(?<![-0-9a-f@/.s])(-?)([0-9a-f]{12,})(?![@/0-9a-f])")


def sibling(rng, line):
    """the same operation with one digit of one operand changed (same length, same leading digit), or None"""
    op = line.split(" ", 1)[0]
    if op.startswith("f.pow") or "prime" in op:
        return None         # a digit more or less can carry a power beyond the range of the type, or take ages to factor
    if "from" in op or ".to." in op and "f." in op[:2] and rng.random() < .5:
        return None
    c = [m for m in TOK.finditer(line) if m.start() > len(op) and len(m.group(2) or m.group(5)) >= 4]
    if not c:
        return None
    m = rng.choice(c)
    n = m.group(2) or m.group(5)
    i = rng.choice([1, len(n) - 1, len(n) // 2, rng.randrange(1, len(n))])
    dig = "0123456789" if n.isdigit() else "0123456789abcdef"
    v = int(n[:i] + rng.choice([d for d in dig if d != n[i]]) + n[i + 1:], 16)
    if m.group(2):
        q = Fraction(v, int(m.group(3), 16))
        t = "%s%x/%x" % (m.group(1), q.numerator, q.denominator)
    else:
        t = "%s%x" % (m.group(4), v)
    return line[:m.start()] + t + line[m.end():]


LIMIT = {"c01": 15000, "c02": 15000, "c04": 12000, "c05": 8000, "c07": 7000, "c20": 3000}


def lines(rng, n, mods=ALL, keep=None, tier="quick"):
    """about n lines per module: a random sample per operation name, from all over its workload"""
    out = []
    for m in mods:
        w = __import__("mon." + m, fromlist=["x"])
        want = max(10, int(n * SLOW.get(m, 1)))
        r = random.Random(rng.random())
        cap = max(4, want // 30)      # no operation dominates
        limit = max(LIMIT.get(m, 0), min(15 * want, 6000), 4 * want)
        got, num = {}, Counter()
        for seen, c in enumerate(w.workload(r, tier, r.randrange(8), 8)):
            if seen > limit:
                break
            if c.op.endswith(".random") or sum(map(len, c.args)) > 9000 or (keep and not keep(c)):
                continue
            if m == "c14" and c.args[-1].isdigit() and int(c.args[-1]) > (7 if c.op[2:5] in ("sin", "cos", "tan") else 60):
                continue        # seconds each, and some contexts repeat an operation thirty times
            # reservoir sampling
            num[c.op] += 1
            g = got.setdefault(c.op, [])
            if len(g) < cap:
                g.append(c)
            else:
                k = r.randrange(num[c.op])
                if k < cap:
                    g[k] = c
        mine = [c for g in got.values() for c in g]
        r.shuffle(mine)
        if len(mine) > want:          # at least one of each
            first, rest, ops = [], [], set()
            for c in mine:
                (rest if c.op in ops else first).append(c)
                ops.add(c.op)
            mine = first + rest[:max(0, want - len(first))]
        out += mine
    rng.shuffle(out)
    return out
