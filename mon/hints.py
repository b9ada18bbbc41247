"""Fuzzing dictionary: integer constants that stand in /repo's source now and did not in the tree this was written for.
They only steer the generators towards values and sizes the code singles out; nothing is judged by them."""
import json, os, re
from collections import Counter

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.join(HERE, "constants.json")
LIT = re.compile(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|\d[\d_]*)(?:[ui](?:8|16|32|64|128|size))?(?![\w.]*\w)")
SHIFT = re.compile(r"(?<![\w.])(\d+)(?:[ui]\d+)?\s*<<\s*(\d+)")
NAMED = {"u8::MAX": 255, "u16::MAX": 65535, "i16::MAX": 32767, "u32::MAX": (1 << 32) - 1, "i32::MAX": (1 << 31) - 1, "i32::MIN": 1 << 31, "i64::MAX": (1 << 63) - 1,
         "i64::MIN": 1 << 63, "u64::MAX": (1 << 64) - 1, "u128::MAX": (1 << 128) - 1, "i128::MAX": (1 << 127) - 1, "i128::MIN": 1 << 127}


def scan(repo):
    out = {}
    src = os.path.join(repo, "src")
    for root, _, fs in os.walk(src):
        for f in fs:
            if not f.endswith(".rs"):
                continue
            p = os.path.join(root, f)
            with open(p, encoding="utf8", errors="replace") as fh:
                t = re.sub(r"//[^\n]*", "", fh.read())
            c = Counter()
            for m in LIT.finditer(t):
                try:
                    c[int(m.group(1).replace("_", ""), 0)] += 1
                except ValueError:
                    c[int(m.group(1).replace("_", "") or 0)] += 1
            for m in SHIFT.finditer(t):
                if int(m.group(2)) <= 128:
                    c[int(m.group(1)) << int(m.group(2))] += 1
            for k, v in NAMED.items():
                if k in t:
                    c[v] += t.count(k)
            out[os.path.relpath(p, src)] = {str(k): n for k, n in c.items()}
    return out


def novel(repo):
    try:
        with open(BASE) as fh:
            base = json.load(fh)
        now = scan(repo)
    except (OSError, ValueError):
        return []
    s = set()
    for f, c in now.items():
        b = base.get(f, {})
        for k, n in c.items():
            if n > b.get(k, 0) and int(k) > 1:
                s.add(int(k))
    return sorted(s)[:64]


if __name__ == "__main__":
    import sys
    with open(BASE, "w") as fh:
        json.dump(scan(sys.argv[1] if len(sys.argv) > 1 else "/repo"), fh, indent=0, sort_keys=True)
        fh.write("\n")
