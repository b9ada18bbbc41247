"""Every variant of an operation does the same thing: in-place and returning, with a machine integer and with a big one,
derived and primitive comparisons; and no call changes an operand it does not own."""
from .core import Case
from .gen import *
from . import mix

BATCH = 400


def agree(box, first):
    def j(r):
        t = (r.st, "" if r.st != "OK" else r.text.split(" ")[0] if r.text[:1] == "E" else r.text)
        if first:
            box["a"] = t
            return None
        if "a" not in box:
            return None
        return None if box["a"] == t else "expected what the other variant gives: " + " ".join(box["a"])[:1500]
    return j


MODS = ["c01", "c02", "c04", "c08", "c09", "c12", "c13"]


def base(op):
    return op[:-4] if op.endswith("_mut") else op


def widen(op, args):
    """the same operation with its machine-integer operand as a big number, if there is one"""
    b = base(op)
    for s in ("_u32", "_i32", "_bi"):
        if b.endswith(s) and len(args) == 2 and not b.startswith(("u.pow", "b.pow", "r.pow", "u.from", "u.to", "b.from", "b.to", "r.from", "f.", "m.", "p.", "c.", "utils")):
            n = int(args[1]) if s != "_bi" else None
            big = args[1] if n is None else hx(n)
            if b.startswith("r."):
                big += "/1"
            return b[:-len(s)], [args[0], big]
    return None


PAIRED = {f"{p}.{f}" for p, fs in {
    "u": "add sub mul div rem add_u32 sub_u32 mul_u32 div_u32 rem_u32 pow_u32 mul_pow2 shift_left shift_right slice_right",
    "b": "abs neg add sub mul div rem add_i32 sub_i32 mul_i32 div_i32 rem_i32 pow_u32 mul_pow2 shift_left shift_right slice_right",
    "r": "abs neg reci frac truncate add sub mul div add_bi sub_bi mul_bi div_bi add_i32 sub_i32 mul_i32 div_i32 pow_i32",
    "m": "add mul_k transpose", "p": "mul_k diff"}.items() for f in fs.split()}


def workload(rng, tier, shard, nshards):
    rounds = 3 if tier == "quick" else 60
    for _ in range(rounds):
        for c in mix.lines(rng, 2500, MODS, lambda c: base(c.op) in PAIRED or c.op.endswith(("_u32", "_i32", "_bi")), tier):
            b = base(c.op)
            if b in PAIRED:
                box = {}
                yield Case(b, c.args, agree(box, True), "returning")
                yield Case(b + "_mut", c.args, agree(box, False), "in place")
            w = widen(c.op, c.args)
            if w:
                box = {}
                yield Case(b, c.args, agree(box, True), "machine integer")
                yield Case(w[0], w[1], agree(box, False), "big integer")
