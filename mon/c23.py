"""No memory error, undefined behaviour or data race in anything the workloads reach: AddressSanitizer over mixed
operations, ThreadSanitizer over the same operations on several threads at once, Miri over small ones."""
import os, random, re, subprocess, time
from collections import Counter
from . import mix
from .core import BUILD, VERIF, cargo_env, tree_hash

REPORT = re.compile(r"(ERROR: AddressSanitizer|WARNING: ThreadSanitizer|error: Undefined Behavior|Undefined Behavior:|Data race detected)")


def write(path, lines):
    with open(path, "w") as f:
        for k, l in enumerate(lines):
            f.write(f"{k} {l}\n")


def count(path):
    n = 0
    if os.path.exists(path):
        with open(path) as f:
            n = sum(1 for l in f if l.strip() and not l.startswith("END"))
    return n


def execute(cmd, env, timeout):
    p = subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, start_new_session=True)
    try:
        _, err = p.communicate(timeout=timeout)
        return p.returncode, err.decode("utf8", "replace"), False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        _, err = p.communicate()
        return p.returncode, err.decode("utf8", "replace"), True


def last(path, lines):
    n = count(path)
    return lines[n] if n < len(lines) else lines[-1]


def one(kind, bins, d, lines, timeout):
    """-> (operations observed, report or None, line it happened in, timed out)"""
    fi, fo = os.path.join(d, "si"), os.path.join(d, "so")
    write(fi, lines)
    env = dict(os.environ)
    if kind == "asan":
        env["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=99:detect_leaks=0:halt_on_error=1:allocator_may_return_null=1"
        rc, err, to = execute([bins["asan"], fi, fo, "0"], env, timeout)
        n, ln = count(fo), last(fo, lines)
    elif kind == "tsan":
        env["TSAN_OPTIONS"] = "exitcode=66:halt_on_error=0"
        rc, err, to = execute([bins["tsan"], fi, fo, "0", "4"], env, timeout)
        n, ln = sum(count(f"{fo}.{t}") for t in range(4)), lines[0]
    else:
        e = cargo_env()
        e["RUSTUP_TOOLCHAIN"] = "nightly"
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-ignore-leaks"
        e["CARGO_TARGET_DIR"] = os.path.join(BUILD, tree_hash(), "miri")
        cmd = ["cargo", "miri", "run", "-q", "--offline", "--manifest-path", os.path.join(VERIF, "harness", "Cargo.toml"), "--", fi, fo, "0"]
        if kind == "miri threads":
            cmd.append("2")
        rc, err, to = execute(cmd, e, timeout)
        n = count(fo) if kind == "miri" else sum(count(f"{fo}.{t}") for t in range(2))
        ln = last(fo, lines) if kind == "miri" else lines[0]
    for t in range(4):
        for f in (fo, f"{fo}.{t}"):
            if os.path.exists(f):
                os.unlink(f)
    m = REPORT.search(err)
    rep = err[m.start():m.start() + 1500] if m else None
    bad = None
    if not rep and not to and rc != 0:
        # died without a report: a signal (stack overflow, abort), or an error of the harness
        bad = f"exit {rc} without a report: {err[-400:]}"
    return n, rep, ln, to, bad


# small operations, with every place that uses raw pointers first
FLOATS = [f"r.{o}" for o in ("inspect_f32", "inspect_f64", "from_f32", "from_f64", "to_ieee754_f32", "to_ieee754_f64")]


def small(rng):
    first = mix.lines(rng, 60, ["c10"], lambda c: c.op in FLOATS and sum(map(len, c.args)) < 40)
    rest = mix.lines(rng, 40, [m for m in mix.ALL if m not in ("c14", "c18", "c15", "c16", "c17")], lambda c: sum(map(len, c.args)) < 40 and not c.op.endswith(("factorial", "is_prime", "fibonacci")))
    rest += mix.lines(rng, 6, ["c15", "c16", "c17"], lambda c: sum(map(len, c.args)) < 30)
    out = []
    while first or rest:
        if first:
            out.append(first.pop())
        for _ in range(3):
            if rest:
                out.append(rest.pop())
    return [c.line() for c in out]


def shard(job):
    (mod, pid, seed, tier, sh, nsh, bins, budget, tmp, _) = job
    t0 = time.time()
    st = dict(evals=0, distinct=0, ops=Counter(), cls=Counter(), status=Counter(), prof=Counter(), samples=[], inconcl=[], early=False, bits=Counter(), conf=[], cands=0)
    d = os.path.join(tmp, f"s{sh}")
    os.makedirs(d)
    rng = random.Random(f"{seed}/{pid}/{sh}/{tier}")
    rounds = 1 if tier == "quick" else 12
    seen = set()
    plan = []
    for _ in range(rounds):
        plan.append(("asan", [c.line() for c in mix.lines(rng, 500)], 200))
        plan.append(("tsan", [c.line() for c in mix.lines(rng, 120)], 200))
    plan.append(("miri threads" if sh % 4 == 0 else "miri", small(rng), 100 if tier == "quick" else 1500))
    for kind, lines, timeout in plan:
        n, rep, ln, to, bad = one(kind, bins, d, lines, timeout)
        st["evals"] += n
        st["cls"][kind] += n
        if kind in ("tsan", "miri threads"):
            n //= 4 if kind == "tsan" else 2
        for l in lines[:n]:
            st["ops"][l.split(" ")[0]] += 1
            seen.add(hash(l))
        if to:
            st["early"] = st["early"] or not kind.startswith("miri")
        if len(st["samples"]) < 2:
            st["samples"].append(f"{kind}: {lines[0][:160]}")
        if rep or bad:
            st["cands"] += 1
            for _ in range(3):
                n2, rep2, ln2, to2, bad2 = one(kind, bins, d, lines, timeout * 2)
                if rep2 or (rep and rep2 is None and False):
                    st["conf"].append(dict(op=kind, line=ln2, got=rep2, why="no memory error, undefined behaviour or data race", profile=kind, cls=kind, context=lines[:n2 + 1][-400:]))
                    break
            else:
                # a death without a sanitizer report is not judged here: the functional monitors report crashes
                st["inconcl"].append(f"{kind}: {(rep or bad)[:600]}") if rep else st["status"].update(["died without a report"])
            if st["conf"]:
                break
        st["status"]["clean" if not rep else "report"] += 1
    st["distinct"] = len(seen)
    st["wall"] = time.time() - t0
    return st
