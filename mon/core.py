"""Driver: builds the harness from /repo's working tree, runs workloads of real
operations through it, and lets property monitors judge every recorded event.

Verdicts are three-valued. A monitor that refutes an event yields a candidate;
the candidate operation is re-executed alone in a fresh process and counts as a
violation only if it is refuted again. Anything else (harness error, wall-clock
watchdog, unreproducible event) is inconclusive and never becomes a violation.
"""
import glob, hashlib, json, multiprocessing as mp, os, random, resource, shutil
import subprocess, sys, tempfile, time, traceback
from collections import Counter

sys.set_int_max_str_digits(0)
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
EVID = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(VERIF, "evidence", "replay")
CPU_LIMIT = 60.0        # CPU seconds for one operation that normally takes ms
MEM_LIMIT = 6 << 30


class Inconclusive(Exception):
    pass


# ------------------------------------------------------------------ building
def tree_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, fs in os.walk(os.path.join(REPO, "src")):
        dirs.sort()
        files += [os.path.join(root, f) for f in fs]
    files.append(os.path.join(REPO, "Cargo.toml"))
    for root, dirs, fs in [x for c in ("harness", "rharness") for x in os.walk(os.path.join(VERIF, c))]:
        dirs[:] = [d for d in dirs if d != "target"]
        files += [os.path.join(root, f) for f in fs if f.endswith((".rs", ".toml"))]
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:16]


def cargo_env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never",
             CARGO_INCREMENTAL="0", RUST_BACKTRACE="0")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_PROFILE_DEV_OPT_LEVEL", "CARGO_PROFILE_DEV_DEBUG"):
        e.pop(k, None)
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:" + e.get("PATH", "")
    return e


TRIPLE = "x86_64-unknown-linux-gnu"
# profile -> (crate, cargo arguments, toolchain, RUSTFLAGS, binary)
PROFILES = {
    "chk": ("harness", [], "stable", "", "debug/hmon"),
    "rel": ("harness", ["--release"], "stable", "", "release/hmon"),
    "asan": ("harness", ["--target", TRIPLE], "nightly", "-Zsanitizer=address", TRIPLE + "/debug/hmon"),
    "tsan": ("harness", ["--target", TRIPLE, "-Zbuild-std"], "nightly", "-Zsanitizer=thread", TRIPLE + "/debug/hmon"),
    "scripted": ("rharness", [], "stable", "", "debug/rmon"),
}


def build(profile):
    """'chk': overflow checks + debug assertions; 'rel': optimised, neither; 'asan', 'tsan': sanitizers; 'scripted': with
    the stand-in random source. The target directory is keyed by the content of /repo/src, so a stale build can never be
    mistaken for the current tree."""
    crate, cargs, tool, flags, rel = PROFILES[profile]
    th = tree_hash()
    tgt = os.path.join(BUILD, th, profile)
    binp = os.path.join(tgt, rel)
    stamp = os.path.join(BUILD, th, profile + ".ok")
    os.makedirs(tgt, exist_ok=True)
    import fcntl
    lock = open(os.path.join(BUILD, "lock." + profile), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        os.utime(os.path.join(BUILD, th))
        olds = sorted((d for d in glob.glob(os.path.join(BUILD, "*")) if os.path.isdir(d) and not d.endswith(th)), key=os.path.getmtime)
        for d in olds[:-2]:
            if time.time() - os.path.getmtime(d) > 3600:
                shutil.rmtree(d, ignore_errors=True)
        if os.path.exists(stamp) and os.path.exists(binp):
            return binp
        cmd = ["cargo", "build", "--offline", "--manifest-path", os.path.join(VERIF, crate, "Cargo.toml")] + cargs
        e = cargo_env()
        e["RUSTUP_TOOLCHAIN"] = tool
        e["CARGO_TARGET_DIR"] = tgt
        if flags:
            e["RUSTFLAGS"] = flags
        p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
        if p.returncode != 0:
            raise Inconclusive("build failed:\n" + p.stdout[-4000:])
        open(stamp, "w").close()
        return binp
    finally:
        lock.close()


def build_many(profiles):
    """in parallel; raises the first failure"""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(len(profiles)) as ex:
        return dict(zip(profiles, ex.map(build, profiles)))


def build_scripted():
    return build("scripted")


# ------------------------------------------------------------------ running
class Res:
    __slots__ = ("st", "text", "impure")

    def __init__(self, st, text, impure=False):
        self.st, self.text, self.impure = st, text, impure

    def __str__(self):
        t = self.text
        if self.st == "PANIC":
            try:
                t = bytes.fromhex(t).decode("utf8", "replace")
            except ValueError:
                pass
        return (self.st + " " + t)[:2000] + (" [operand modified]" if self.impure else "")


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM_LIMIT, MEM_LIMIT))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Runner:
    """Executes operation lines; survives operations that hang or kill the process."""

    def __init__(self, binp, tmp, cpu_limit=CPU_LIMIT):
        self.bin, self.tmp, self.lim, self.n = binp, tmp, cpu_limit, 0

    def run(self, lines, deadline):
        """lines: list of 'op args'. Returns list of Res (shorter if the deadline passed)."""
        out = []
        pos = 0
        while pos < len(lines):
            self.n += 1
            fi = os.path.join(self.tmp, f"i{self.n}")
            fo = os.path.join(self.tmp, f"o{self.n}")
            with open(fi, "w") as f:
                for k in range(pos, len(lines)):
                    f.write(f"{k} {lines[k]}\n")
            left = max(5.0, deadline - time.time())
            p = subprocess.Popen([self.bin, fi, fo, str(self.lim)], preexec_fn=_limits,
                                 stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            timed = False
            try:
                _, err = p.communicate(timeout=left)
            except subprocess.TimeoutExpired:
                p.kill()
                _, err = p.communicate()
                timed = True
            got = []
            if os.path.exists(fo):
                with open(fo) as f:
                    got = f.read().split("\n")
                os.unlink(fo)
            os.unlink(fi)
            done = False
            for l in got:
                if l == "END":
                    done = True
                    break
                if not l:
                    continue
                parts = l.split(" ", 2)
                if len(parts) < 2 or parts[0] != str(pos):
                    if timed:
                        break
                    raise Inconclusive(f"unexpected record {l[:200]!r} at {pos}")
                st = parts[1]
                tx = parts[2] if len(parts) > 2 else ""
                imp = False
                if st == "OK" and tx.endswith(" !IMPURE"):
                    tx, imp = tx[:-8], True
                out.append(Res(st, tx, imp))
                pos += 1
            if done:
                break
            if timed:
                return out
            if p.returncode == 4:
                raise Inconclusive("harness: " + err.decode()[-500:])
            if p.returncode == 3 and out and out[-1].st == "HANG":
                continue
            # the process died inside operation `pos`
            if pos < len(lines):
                out.append(Res("CRASH", f"exit {p.returncode} {err.decode('utf8','replace')[-300:]}"))
                pos += 1
        return out


# ------------------------------------------------------------------ judging
class Case:
    """One operation and its oracle. `judge(res)` returns None or what is wrong."""
    __slots__ = ("op", "args", "judge", "cls")

    def __init__(self, op, args, judge, cls=""):
        self.op, self.args, self.judge, self.cls = op, args, judge, cls

    def line(self):
        return self.op + " " + " ".join(self.args)


def want(text):
    """the operation must return exactly this"""
    def j(r):
        if r.st == "OK" and r.text == text:
            return None
        return "expected " + text[:1500]
    return j


def want_panic(r):
    return None if r.st == "PANIC" else "expected a panic"


def want_if(pred, desc):
    def j(r):
        if r.st == "OK":
            try:
                if pred(r.text):
                    return None
            except Exception as ex:      # unreadable output is a wrong output
                return f"expected {desc} ({type(ex).__name__}: {ex})"
        return "expected " + desc
    return j


def judge(c, r):
    if r.impure:
        return "operand modified by the call"
    if r.st in ("HANG", "CRASH"):
        return "operation must complete normally"
    return c.judge(r)


TRIVIAL = {"0", "1", "-1", "0/1", "1/1", "[]", "s"}


def is_trivial(c):
    return all(a in TRIVIAL for a in c.args)


def shard_main(job):
    (mod, pid, seed, tier, shard, nshards, bins, budget, tmp, maxops) = job
    t0 = time.time()
    st = dict(evals=0, distinct=0, ops=Counter(), cls=Counter(), status=Counter(), prof=Counter(), samples=[], cands=[], inconcl=[], early=False, bits=Counter(), cpu=0)
    try:
        m = __import__("mon." + mod, fromlist=["x"])
        rng = random.Random(f"{seed}/{pid}/{shard}/{tier}")
        seen = set()
        prof = "rel" if (shard % 4 == 3 and "rel" in bins) else "chk"
        d = os.path.join(tmp, f"s{shard}")
        os.makedirs(d)
        rn = Runner(bins[prof], d)
        deadline = t0 + budget
        gen = m.workload(rng, tier, shard, nshards)
        batch = []
        nbad = 0
        over = False

        def flush():
            nonlocal nbad, over
            if not batch:
                return
            rs = rn.run([c.line() for c in batch], deadline + 60)
            if len(rs) < len(batch):
                over = True
            for pos, (c, r) in enumerate(zip(batch, rs)):
                st["evals"] += 1
                st["ops"][c.op] += 1
                st["status"][r.st] += 1
                if c.cls:
                    st["cls"][c.cls] += 1
                if not is_trivial(c):
                    hsh = hash((c.op, tuple(c.args)))
                    if hsh not in seen:
                        seen.add(hsh)
                        L = sum(map(len, c.args))
                        st["bits"][("<=64b", "<=256b", "<=2kb", "<=16kb", ">16kb")[(L > 16) + (L > 64) + (L > 512) + (L > 4096)]] += 1
                if len(st["samples"]) < 3 and (st["evals"] % 97 == 1):
                    st["samples"].append((prof + ": " + c.line())[:200] + " -> " + str(r)[:160])
                try:
                    v = judge(c, r)
                except Exception:
                    st["inconcl"].append("oracle error on " + c.line()[:300] + "\n" + traceback.format_exc()[-1500:])
                    v = None
                if v is not None:
                    nbad += 1
                    if len(st["cands"]) < 6:
                        st["cands"].append((c, r, v, prof, [x.line() for x in batch[:pos]]))
            batch.clear()

        bs = getattr(m, "BATCH", 400)
        for c in gen:
            batch.append(c)
            if len(batch) >= bs:
                flush()
                if over or nbad >= 6 or time.time() > deadline or (maxops and st["evals"] >= maxops):
                    st["early"] = over or nbad < 6 and time.time() > deadline
                    break
        else:
            flush()
        if over:
            st["early"] = True
        st["prof"][prof] = st["evals"]
        st["distinct"] = len(seen)
        # confirm candidates in fresh processes
        conf = []
        for c, r, v, pr, before in st["cands"]:
            if any(x[0].op == c.op for x in conf) or (conf and time.time() > deadline):
                continue
            for _ in range(20 if c.op.endswith(".random") else 1):
                rs = Runner(bins[pr], d).run([c.line()], time.time() + 400)
                if not rs:
                    st["inconcl"].append("candidate could not be re-run in time: " + c.line()[:300])
                    break
                v2 = judge(c, rs[0])
                if v2 is not None:
                    conf.append((c, rs[0], v2, pr, []))
                    break
            else:
                # right when alone: does it go wrong again after the same history?
                rs = Runner(bins[pr], d).run(before + [c.line()], time.time() + 400)
                v2 = judge(c, rs[-1]) if len(rs) > len(before) else None
                if v2 is not None and not c.op.endswith(".random"):
                    conf.append((c, rs[-1], v2 + " (wrong only after the operations listed as context)", pr, before))
                    continue
                st["inconcl"].append("candidate did not reproduce: " + c.line()[:300])
        st["conf"] = [dict(op=c.op, line=c.line(), got=str(r), why=v, profile=pr, cls=c.cls, context=ctx) for c, r, v, pr, ctx in conf]
        st["cands"] = len(st["cands"])
    except Inconclusive as ex:
        st["inconcl"].append(str(ex))
        st["conf"] = []
        st["cands"] = 0
    except Exception:
        st["inconcl"].append(traceback.format_exc()[-3000:])
        st["conf"] = []
        st["cands"] = 0
    st["wall"] = time.time() - t0
    return st


def long_ops(cases, binp, tmp, cpu=400):
    """a few operations that take a minute each, in parallel, in the optimised build"""
    from concurrent.futures import ThreadPoolExecutor
    st = dict(evals=0, distinct=0, ops=Counter(), cls=Counter(), status=Counter(), prof=Counter(), samples=[], cands=0, inconcl=[], early=False, bits=Counter(), conf=[])

    def one(ic):
        i, c = ic
        d = os.path.join(tmp, f"long{i}")
        os.makedirs(d)
        for again in (0, 1):
            rs = Runner(binp, d, cpu).run([c.line()], time.time() + 420)
            if not rs:
                return c, None, None
            v = judge(c, rs[0])
            if v is None:
                return c, rs[0], "not reproduced" if again else None
            if rs[0].st == "HANG":      # slow is not wrong: not observed
                return c, None, None
        return c, rs[0], v

    with ThreadPoolExecutor(max(1, len(cases))) as ex:
        for c, r, v in ex.map(one, enumerate(cases)):
            if r is None:
                st["cls"][c.cls + " (not finished, not judged)"] += 1
                continue
            st["evals"] += 1
            st["distinct"] += 1
            st["ops"][c.op] += 1
            st["status"][r.st] += 1
            st["cls"][c.cls] += 1
            st["prof"]["rel"] += 1
            if v == "not reproduced":
                st["inconcl"].append("candidate did not reproduce: " + c.line())
            elif v is not None:
                st["conf"].append(dict(op=c.op, line=c.line(), got=str(r), why=v, profile="rel", cls=c.cls, context=[]))
    return st


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return json.load(open(p)).get("findings", [])


def finish(pid, tier, seed, meta, cov, viols, inconcl, wall):
    os.makedirs(EVID, exist_ok=True)
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(wall, 2),
              violations=len(viols), assumptions=meta.get("assumptions", []))
    if inconcl:
        ev["inconclusive"] = inconcl[:10]
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viols:
        os.makedirs(REPLAY, exist_ok=True)
        rp = os.path.join(REPLAY, f"{pid}.json")
        with open(rp, "w") as f:
            json.dump(dict(property=pid, seed=seed, tier=tier, how=f"python3 check.py {pid} --replay {rp}", violations=viols), f, indent=1)
        for v in viols[:5]:
            print(f"  [{v['profile']}] {v['line'][:600]}\n      got      {v['got'][:600]}\n      {v['why'][:600]}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if cov.get("evaluations", 0) < meta.get("min_evals", 1000):
        for s in inconcl[:3]:
            print("inconclusive:", s, file=sys.stderr)
        print(f"INCONCLUSIVE property={pid}: only {cov.get('evaluations', 0)} operations were observed")
        return 2
    for s in inconcl[:3]:
        print("inconclusive:", s, file=sys.stderr)
    if inconcl:
        print(f"INCONCLUSIVE property={pid}: {len(inconcl)} event(s) could not be judged")
        return 2
    print(f"held property={pid} tier={tier} seed={seed}: {cov['evaluations']} operations observed, {cov['distinct_nontrivial']} distinct non-trivial, {wall:.1f} s")
    return 0


def run_property(pid, tier, seed):
    from mon.props import PROPS
    meta = PROPS[pid]
    t0 = time.time()
    nsh = int(os.environ.get("VERIF_SHARDS", "8"))
    try:
        bins = build_many(meta.get("builds", ["chk", "rel"]))
    except Inconclusive as ex:
        print(ex, file=sys.stderr)
        return 2
    budget = meta.get("budget", {}).get(tier, 240 if tier == "quick" else 800)
    tmp = tempfile.mkdtemp(prefix="hmon-")
    try:
        jobs = [(meta["mod"], pid, seed, tier, i, nsh, bins, budget, tmp, 0) for i in range(nsh)]
        with mp.get_context("fork").Pool(min(nsh, os.cpu_count() or 8)) as pool:
            m = __import__("mon." + meta["mod"], fromlist=["x"])
            h = pool.map_async(getattr(m, "shard", shard_main), jobs, chunksize=1)
            side = long_ops(m.side(tier, seed), bins["rel"], tmp) if hasattr(m, "side") else None
            sts = h.get() + ([side] if side else [])
        known = [k for k in load_known() if k["property"] == pid]
        viols, inconcl = [], []
        ops, cls, status, bits, prof = Counter(), Counter(), Counter(), Counter(), Counter()
        ev = dn = 0
        early = 0
        samples = []
        for s in sts:
            ev += s["evals"]
            dn += s["distinct"]
            ops += s["ops"]; cls += s["cls"]; status += s["status"]; bits += s["bits"]; prof += s["prof"]
            early += bool(s["early"])
            samples += s["samples"][:1] if len(samples) > 8 else s["samples"]
            inconcl += s["inconcl"]
            viols += s["conf"]
        kn = {k["line"] for k in known}
        viols = [v for v in viols if v["line"] not in kn]
        # every known finding is re-executed, and reported while it still fails
        if known:
            m = __import__("mon." + meta["mod"], fromlist=["x"])
            rn = Runner(bins["chk"], tmp, 30)
            for k in known:
                r = rn.run([k["line"]], time.time() + 120)
                if r and (r[0].st + " " + r[0].text).startswith(k["fails_with"]):
                    print(f"KNOWN-FINDING: property={pid} {k['what']} [{k['line'][:200]}]")
        extra = {}
        m = __import__("mon." + meta["mod"], fromlist=["x"])
        if hasattr(m, "extra"):
            xv, xi, extra = m.extra(tier, seed, bins, tmp)
            viols += xv
            inconcl += xi
        cov = dict(evaluations=ev, distinct_nontrivial=dn, rule=meta["rule"], samples=samples[:10],
                   operations=dict(sorted(ops.items())), outcome=dict(status), operand_size=dict(bits), build_profiles=dict(prof))
        if cls:
            cov["classes"] = dict(sorted(cls.items()))
        if early:
            cov["shards_stopped_by_time_budget"] = early
        cov.update(extra)
        return finish(pid, tier, seed, meta, cov, viols, inconcl, time.time() - t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay(pid, path):
    d = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix="hmon-")
    try:
        for v in d["violations"]:
            if v["profile"] not in ("chk", "rel", "asan") or " " not in v["line"]:
                print("   ", v["line"]); continue
            r = Runner(build(v["profile"]), tmp).run(v.get("context", []) + [v["line"]], time.time() + 400)
            print(v["line"], "\n   now ", r[-1] if r else "timeout", "\n   then", v["got"], "\n   ", v["why"])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
