"""Results depend on the operands alone: not on what was called before, on other threads, or on the build profile.

Each block of mixed operations is executed alone in order (the reference), then backwards, then in the optimised build
without overflow checks, then by several threads of one process at once; every recorded result is compared."""
import json, os, random, subprocess, time, zlib
from collections import Counter
from . import mix
from .core import Runner, Res, _limits, Inconclusive

THREADS = 6


def norm(r):
    return (r.st, r.text + (" !IMPURE" if r.impure else "") if r.st == "OK" else "")


def parse_lines(path):
    out = {}
    try:
        with open(path) as f:
            for l in f.read().split("\n"):
                p = l.split(" ", 2)
                if len(p) >= 2:
                    out[int(p[0])] = (p[1], p[2] if p[1] == "OK" and len(p) > 2 else "")
    except FileNotFoundError:
        pass
    return out


def crowd(binp, d, lines, timeout):
    fi, fo = os.path.join(d, "ci"), os.path.join(d, "co")
    with open(fi, "w") as f:
        for k, l in enumerate(lines):
            f.write(f"{k} {l}\n")
    p = subprocess.Popen([binp, fi, fo, "0", str(THREADS)], preexec_fn=_limits, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    try:
        _, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None
    if p.returncode == 4:
        raise Inconclusive("harness: " + err.decode()[-300:])
    res = []
    for t in range(THREADS):
        res.append(parse_lines(f"{fo}.{t}"))
        if os.path.exists(f"{fo}.{t}"):
            os.unlink(f"{fo}.{t}")
    if p.returncode != 0:
        return res, f"exit {p.returncode} " + err.decode("utf8", "replace")[-300:]
    return res, None


def contexts(rn, bins, d, lines, deadline):
    """yields (context name, profile, {index: outcome} or None)"""
    n = len(lines)
    rs = rn["chk"].run(lines[::-1], deadline)
    yield "in reverse order", "chk", {n - 1 - i: norm(r) for i, r in enumerate(rs)}
    rs = rn["rel"].run(lines, deadline)
    yield "in the optimised build", "rel", {i: norm(r) for i, r in enumerate(rs)}
    rs = rn["chk"].run([l for l in lines for _ in (0, 1)], deadline)
    yield "called twice in a row", "chk", {i // 2: norm(r) for i, r in enumerate(rs) if i % 2}
    for pr in ("chk", "rel"):
        c = crowd(bins[pr], d, lines, max(5, deadline - time.time()))
        if c is None:
            continue
        for t, o in enumerate(c[0]):
            yield f"on thread {t} of {THREADS}", pr, o
        if c[1]:
            yield "on several threads: the process died, " + c[1], pr, None


def shard(job):
    (mod, pid, seed, tier, sh, nsh, bins, budget, tmp, _) = job
    t0 = time.time()
    deadline = t0 + budget
    st = dict(evals=0, distinct=0, ops=Counter(), cls=Counter(), status=Counter(), prof=Counter(), samples=[], inconcl=[], early=False, bits=Counter(), conf=[], cands=0)
    d = os.path.join(tmp, f"s{sh}")
    os.makedirs(d)
    rng = random.Random(f"{seed}/{pid}/{sh}/{tier}")
    rn = {p: Runner(bins[p], d) for p in ("chk", "rel")}
    seen = set()
    rounds = 2 if tier == "quick" else 40
    for rd in range(rounds):
        L = []
        for c in mix.lines(rng, 400):
            L.append(c.line())
            if rng.random() < .3:
                sib = mix.sibling(rng, L[-1])
                if sib:
                    L.append(sib)
                    st["bits"]["one digit changed"] += 1
        R = []
        for b in range(0, len(L), 600):
            lines = L[b:b + 600]
            if time.time() > deadline:
                st["early"] = True
                break
            ref = rn["chk"].run(lines, deadline + 60)
            keep = [(l, r) for l, r in zip(lines, ref) if r.st != "HANG"]
            lines, ref = [l for l, _ in keep], [r for _, r in keep]
            if not lines:
                continue
            seen.update(map(hash, lines))
            for l, r in zip(lines, ref):
                st["ops"][l.split(" ", 1)[0]] += 1
                st["status"][r.st] += 1
            ref = [norm(r) for r in ref]
            R += list(zip(lines, ref))
            bad = []
            for name, pr, o in contexts(rn, bins, d, lines, deadline + 60):
                if o is None:
                    bad.append((name, pr, None))
                    continue
                st["cls"]["on several threads" if "thread" in name else name] += len(o)
                st["prof"][pr] += len(o)
                st["evals"] += len(o)
                for i, v in o.items():
                    if v != ref[i]:
                        bad.append((name, pr, i))
                        break
            if len(st["samples"]) < 2:
                st["samples"].append("chk: " + lines[0][:200] + " -> " + " ".join(ref[0])[:120])
            for name, pr, i in bad[:4]:
                st["cands"] += 1
                confirm(st, rn, bins, d, lines, ref, name, pr, i)
            if st["conf"]:
                break
        if st["conf"] or st["early"]:
            break
        if rd == 0:
            mine = [x for x in R if zlib.crc32(x[0].split(" ", 1)[0].encode()) % nsh == sh and len(x[0]) < 2000]
            with open(os.path.join(tmp, f"hammer{sh}"), "w") as f:
                json.dump(mine, f)
        long_history(st, rn["chk"], R, rng, deadline)
        if st["conf"]:
            break
    st["distinct"] = len(seen)
    st["wall"] = time.time() - t0
    return st


HAMMERS = 8


def hammer(binp, d, groups, ms):
    """{index: set of outcomes}, rounds"""
    fi, fo = os.path.join(d, "hi"), os.path.join(d, "ho")
    with open(fi, "w") as f:
        f.write("\n\n".join("\n".join(f"{k} {l}" for k, l in g) for g in groups) + "\n")
    p = subprocess.Popen([binp, fi, fo, "0", str(HAMMERS), str(ms)], preexec_fn=_limits, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    try:
        _, err = p.communicate(timeout=400)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, 0, None
    if p.returncode == 4:
        raise Inconclusive("harness: " + err.decode()[-300:])
    res, rounds = {}, 0
    for t in range(HAMMERS):
        try:
            with open(f"{fo}.{t}") as f:
                for l in f.read().split("\n"):
                    q = l.split(" ", 2)
                    if q[0] == "ROUNDS":
                        rounds += int(q[1])
                    elif len(q) >= 2:
                        res.setdefault(int(q[0]), set()).add((q[1], q[2] if q[1] == "OK" and len(q) > 2 else ""))
            os.unlink(f"{fo}.{t}")
        except FileNotFoundError:
            pass
    return res, rounds, None if p.returncode == 0 else f"exit {p.returncode} " + err.decode("utf8", "replace")[-300:]


def extra(tier, seed, bins, tmp):
    """one operation at a time with a few operands, on all cores at once, over and over"""
    rng = random.Random(f"{seed}/C21/hammer")
    by = {}
    for fn in sorted(os.listdir(tmp)):
        if fn.startswith("hammer"):
            with open(os.path.join(tmp, fn)) as f:
                for l, r in json.load(f):
                    by.setdefault(l.split(" ", 1)[0], {})[l] = tuple(r)
    L, groups = [], []
    for op in sorted(by):
        g = rng.sample(sorted(by[op]), min(5, len(by[op])))
        groups.append([(len(L) + i, l) for i, l in enumerate(g)])
        L += [(l, by[op][l]) for l in g]
    if not L:
        return [], [], {}
    res, rounds, died = hammer(bins["rel"], tmp, groups, 40 if tier == "quick" else 400)
    if res is None:
        return [], [], {"hammered": "stopped by time limit"}
    cov = {"hammered": dict(operations=len(groups), operands=len(L), threads=HAMMERS, calls=rounds)}
    rn = Runner(bins["rel"], tmp)
    if died:
        _, _, again = hammer(bins["rel"], tmp, groups, 25)
        return ([dict(op="", line="one operation at a time on several threads", got=died, why="the operations must complete normally", profile="rel", cls="hammer")], [], cov) if again else ([], ["hammer: the process died once: " + died], cov)
    viols, inc = [], []
    for k in sorted(res):
        bad = [o for o in res[k] if o != L[k][1]]
        if bad:
            alone = [rn.run([L[k][0]], time.time() + 200) for _ in range(3)]
            if all(a and norm(a[0]) == L[k][1] for a in alone):
                viols.append(dict(op=L[k][0].split(" ")[0], line=L[k][0], got="called over and over on several threads: " + " ".join(bad[0])[:1500], why="expected what it gives alone: " + " ".join(L[k][1])[:1500], profile="rel", cls="hammer",
                                  context=[l for g in groups if any(i == k for i, _ in g) for _, l in g]))
                if len(viols) > 3:
                    break
            elif all(a and norm(a[0]) in res[k] for a in alone) and len({norm(a[0]) for a in alone}) == 1:
                pass        # the builds differ: judged by the shards
            else:
                inc.append("unstable reference: " + L[k][0][:300])
    return viols, inc, cov


def long_history(st, rn, R, rng, deadline):
    """all operations of the round in one process, in another order"""
    R = R[:]
    rng.shuffle(R)
    rs = rn.run([l for l, _ in R], deadline + 60)
    st["evals"] += len(rs)
    st["cls"]["late in a long history"] += len(rs)
    st["prof"]["chk"] += len(rs)
    for k, r in enumerate(rs):
        if norm(r) == R[k][1]:
            continue
        st["cands"] += 1
        a = rn.run([R[k][0]], time.time() + 200)
        b = rn.run([l for l, _ in R[:k + 1]], time.time() + 400)
        if a and len(b) == k + 1 and norm(a[0]) != norm(b[k]):
            st["conf"].append(dict(op=R[k][0].split(" ")[0], line=R[k][0], got=f"after {k} other operations: " + " ".join(norm(b[k]))[:1500],
                                   why="expected what it gives alone: " + " ".join(norm(a[0]))[:1500], profile="chk", cls="long history", context=[l for l, _ in R[:k]]))
        elif a and norm(a[0]) != R[k][1]:
            st["inconcl"].append("unstable reference: " + R[k][0][:300])
        else:
            st["inconcl"].append("difference did not reproduce: " + R[k][0][:300])
        return


def confirm(st, rn, bins, d, lines, ref, name, pr, i):
    """the reference is re-established in a fresh process, the context re-run until it differs again"""
    for _ in range(8):
        for n2, p2, o in contexts(rn, bins, d, lines, time.time() + 200):
            if o is None and i is None:
                st["conf"].append(dict(op="", line=f"{len(lines)} operations starting with {lines[0][:300]}", got=n2, why="the operations must complete normally", profile=p2, cls="", context=lines[:50]))
                return
            if o is None or i is None:
                continue
            for k, v in o.items():
                if v != ref[k]:
                    f = rn["chk"].run([lines[k]], time.time() + 200)
                    if f and norm(f[0]) == ref[k]:
                        st["conf"].append(dict(op=lines[k].split(" ")[0], line=lines[k], got=f"{n2} ({p2}): " + " ".join(v)[:1500], why="expected what it gives alone: " + " ".join(ref[k])[:1500], profile=p2, cls=n2, context=lines[:600] if "build" not in n2 else []))
                        return
                    if f:
                        st["conf"].append(dict(op=lines[k].split(" ")[0], line=lines[k], got="first in a block: " + " ".join(ref[k])[:1500], why="expected what it gives alone: " + " ".join(norm(f[0]))[:1500], profile="chk", cls="order", context=lines[:600]))
                        return
    st["inconcl"].append(f"difference did not reproduce: {name} {pr} {lines[i][:300] if i is not None else ''}")
