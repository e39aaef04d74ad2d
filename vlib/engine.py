"""Choice-sequence based property engine.

A generator draws every random decision from a `Src`. The recorded sequence of draws is the
test case: replaying a sequence re-creates the case, and shrinking edits the sequence (delete
a span, zero it, lower one draw), so that every generator shrinks without code of its own.
"""
import hashlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from . import build as B
from .farm import Farm, die_with_parent

VERIF = B.VERIF
TIMEOUT = 12.0          # one april process; a normal one takes 0.05 .. 1 s


class Reject(Exception):
    """The draws do not lead to a case of the domain."""


class Src:
    """Draw source: random (rng given) or replaying a prefix (missing draws are 0)."""

    def __init__(self, rng=None, prefix=(), limit=60000):
        self.rng, self.prefix, self.limit = rng, list(prefix), limit
        self.out = []
        self.spans = []
        self.tags = {}
        self.budget = None

    def draw(self, n):
        if n <= 0:
            raise Reject("empty draw")
        k = len(self.out)
        if k >= self.limit:
            raise Reject("too long")
        if k < len(self.prefix):
            v = self.prefix[k]
            if v >= n:
                v = n - 1
        elif self.rng is not None:
            v = self.rng.randrange(n)
        else:
            v = 0
        self.out.append(v)
        return v

    def i(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def choice(self, xs):
        return xs[self.draw(len(xs))]

    def weighted(self, pairs):
        """pairs: [(weight, value)], the simplest first."""
        tot = sum(w for w, _ in pairs)
        v = self.draw(tot)
        for w, x in pairs:
            if v < w:
                return x
            v -= w
        return pairs[-1][1]

    def p(self, pct):
        """True with probability pct/100; shrinks to False."""
        return self.draw(100) >= 100 - pct

    def shuffle(self, xs):
        xs = list(xs)
        for k in range(len(xs) - 1):
            j = k + self.draw(len(xs) - k)
            xs[k], xs[j] = xs[j], xs[k]
        return xs

    def span(self):
        return _Span(self)

    def many(self, lo, hi, pct=None):
        """Yields between lo and hi times, each inside a span that shrinking can delete."""
        n = 0
        if pct is None:
            avg = (lo + hi) / 2.0
            pct = int(100 * (avg - lo + .5) / (avg - lo + 1.5)) if hi > lo else 0
        while n < hi:
            s = _Span(self)
            s.__enter__()
            if n >= lo and not self.p(pct):
                s.__exit__(None, None, None)
                break
            yield n
            s.__exit__(None, None, None)
            n += 1

    def tag(self, name, k=1):
        self.tags[name] = self.tags.get(name, 0) + k


class _Span:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        self.a = len(self.s.out)

    def __exit__(self, *e):
        self.s.spans.append((self.a, len(self.s.out)))


# ------------------------------------------------------------------ running april

def _limits():
    import resource
    die_with_parent()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


class Result:
    __slots__ = ("rc", "out", "err")

    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err

    def brief(self, n=1500):
        return {"rc": self.rc, "stdout": self.out[:n], "stderr": self.err[:400]}


def run_proc(argv, cwd, timeout=TIMEOUT, env=None):
    fo = tempfile.TemporaryFile()
    try:
        p = subprocess.Popen(argv, cwd=cwd, stdin=subprocess.DEVNULL, stdout=fo,
                             stderr=subprocess.PIPE, preexec_fn=_limits, env=env,
                             start_new_session=True)
        try:
            _, err = p.communicate(timeout=timeout)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            _, err = p.communicate()
            rc = "timeout"
        fo.seek(0)
        out = fo.read(8 << 20)
    finally:
        fo.close()
    return Result(rc, out.decode("utf-8", "replace"), (err or b"").decode("utf-8", "replace"))


def april_paths():
    return os.environ["APRIL_EXE"], os.environ["APRIL_SYS"]


def execute(case):
    """Runs the steps of a case in a scratch directory. Returns list of Result (+ file bytes)."""
    exe, sysapl = april_paths()
    base = os.environ.get("VERIF_SCRATCH", "/tmp")
    d = tempfile.mkdtemp(prefix="aprchk", dir=base)
    try:
        for path, text in case["files"].items():
            full = os.path.join(d, path)
            os.makedirs(os.path.dirname(full), exist_ok=True)
            if isinstance(text, dict):
                data = bytes.fromhex(text["hex"])
            else:
                data = text.encode("utf-8")
            with open(full, "wb") as f:
                f.write(data)
        res = []
        for st in case["steps"]:
            if "mkdir" in st:
                os.makedirs(os.path.join(d, st["mkdir"]), exist_ok=True)
                res.append(Result(0, "", ""))
                continue
            if "copy" in st:
                a, b = st["copy"]
                try:
                    shutil.copy(os.path.join(d, a), os.path.join(d, b))
                    res.append(Result(0, "", ""))
                except OSError as e:
                    res.append(Result(1, "", str(e)))
                continue
            if "read" in st:
                p = os.path.join(d, st["read"])
                if os.path.exists(p):
                    res.append(Result(0, hashlib.sha256(open(p, "rb").read()).hexdigest() +
                                      " %d" % os.path.getsize(p), ""))
                else:
                    res.append(Result(1, "absent", ""))
                continue
            argv = [{"@april": exe, "@sys": sysapl}.get(a, a) for a in st["argv"]]
            cwd = os.path.join(d, st.get("cwd", "."))
            os.makedirs(cwd, exist_ok=True)
            r = run_proc(argv, cwd)
            r.out = r.out.replace(d, "$D")
            res.append(r)
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _diff(exp, got):
    a, b = exp.split("\n"), got.split("\n")
    for k in range(max(len(a), len(b))):
        x = a[k] if k < len(a) else "<end>"
        y = b[k] if k < len(b) else "<end>"
        if x != y:
            return "line %d: expected %r, got %r" % (k + 1, x[:200], y[:200])
    return "equal"


def judge(case, res):
    """None if every step did what the case demands, else a description."""
    for k, (st, r) in enumerate(zip(case["steps"], res)):
        if r.rc == "timeout":
            return "step %d: no end within %d s" % (k, TIMEOUT)
        if isinstance(r.rc, int) and r.rc < 0 and not st.get("any"):
            return "step %d: killed by signal %d; stdout %r" % (k, -r.rc, r.out[-300:])
        if "rc" in st and r.rc != st["rc"]:
            return "step %d: exit status %s, expected %s; stdout %r" % (
                k, r.rc, st["rc"], r.out if len(r.out) < 900 else r.out[:500] + " ... " + r.out[-400:])
        if "out" in st and r.out != st["out"]:
            return "step %d: %s (rc %s)" % (k, _diff(st["out"], r.out), r.rc)
        if "same" in st:
            o = res[st["same"]]
            if r.out != o.out or r.rc != o.rc:
                return "step %d differs from step %d: %s (rc %s / %s)" % (
                    k, st["same"], _diff(o.out, r.out), o.rc, r.rc)
        if st.get("reject"):
            m = _judge_reject(st, r)
            if m:
                return "step %d: %s" % (k, m)
    return None


def _judge_reject(st, r):
    if r.rc == 0:
        return "an ill-formed program was accepted (exit status 0); stdout %r" % r.out[:300]
    bad = [r.out.find(x) for x in ("call stack", "unexpected [", "Assert failed", "Assert error") if x in r.out]
    if st.get("lenient") and bad and "error\x1b" in r.out[:min(bad)]:
        bad = []                # what follows the diagnostic does not matter
    if bad or "terminate called" in r.err:
        return "internal failure instead of a diagnostic: %r" % (r.out[:300] + r.err[:200])
    if st.get("marker") and st["marker"] in r.out:
        return "an ill-formed program was executed; stdout %r" % r.out[:300]
    if "error" not in r.out:
        return "no diagnostic; stdout %r" % r.out[:300]
    return None


def check_case(case):
    mod = case.get("judge")
    res = execute(case)
    if mod:
        import importlib
        m = importlib.import_module("props." + mod)
        return m.judge(case, res), res
    return judge(case, res), res


# ------------------------------------------------------------------ the campaign

def seed_for(seed, prop, k):
    h = hashlib.sha256(("%s|%s|%s" % (seed, prop, k)).encode()).digest()
    return int.from_bytes(h[:8], "big")


_gen = None


def _load(propmod):
    global _gen
    import importlib
    _gen = importlib.import_module("props." + propmod)


def make_case(gen, src):
    """Runs a generator; returns the case dict or None when it rejects the draws."""
    try:
        return gen(src)
    except Reject:
        return None


def _one(args):
    """Worker: one random case. Returns a summary."""
    propmod, seed, k, tier = args
    if _gen is None or _gen.__name__ != "props." + propmod:
        _load(propmod)
    src = Src(random.Random(seed_for(seed, propmod, k)))
    src.tier = tier
    src.index = k
    case = make_case(_gen.gen, src)
    if case is None:
        return {"k": k, "reject": True}
    msg, res = check_case(case)
    key = hashlib.sha256(json.dumps([case["files"], [s.get("argv") for s in case["steps"]]],
                                    sort_keys=True).encode()).hexdigest()[:20]
    out = {"k": k, "msg": msg, "tags": src.tags, "nontrivial": bool(case.get("nontrivial")),
           "key": key, "units": case.get("units", 1), "ndraws": len(src.out)}
    if msg:
        out["choices"] = src.out
    if k < 3:
        out["sample"] = sample_of(case)
    return out


def sample_of(case, n=1800):
    fs = sorted(case["files"].items())
    return {"files": {p: (t if not isinstance(t, str) else
                          (t if len(t) < n else t[:n] + " ...[%d chars]" % len(t)))
                      for p, t in fs[:3]},
            "steps": [{k: (v if not isinstance(v, str) or len(v) < 600 else v[:600] + "...")
                       for k, v in s.items()} for s in case["steps"][:4]]}


def _try(args):
    """Worker: one candidate sequence while shrinking."""
    propmod, prefix, tier, index, kind = args
    if _gen is None or _gen.__name__ != "props." + propmod:
        _load(propmod)
    src = Src(None, prefix)
    src.tier = tier
    src.index = index
    case = make_case(_gen.gen, src)
    if case is None:
        return None
    msg, _ = check_case(case)
    if not msg or (kind and kind_of(msg) != kind):
        return None
    return (src.out, src.spans, msg)


def kind_of(msg):
    """Coarse class of a failure, so that shrinking does not slide to a different one."""
    for k in ("no end within", "killed by signal", "exit status", "differs from", "accepted",
              "internal failure", "executed", "no diagnostic"):
        if k in msg:
            return k
    return "output"


def _better(a, b):
    return (len(a), a) < (len(b), b)


def shrink(pool, propmod, choices, tier, index, budget_s, log, kind=None):
    t0 = time.time()
    cur = _try((propmod, choices, tier, index, kind))
    if cur is None:
        return None
    tried = 0
    seen = set()

    def attempt(cands):
        """Evaluates candidates in parallel batches; adopts the first better one in order."""
        nonlocal cur, tried
        batch = []
        for c in cands:
            t = tuple(c)
            if t in seen:
                continue
            seen.add(t)
            batch.append(c)
            if len(batch) >= B.JOBS * 2:
                if go(batch):
                    return True
                batch = []
            if time.time() - t0 > budget_s:
                return False
        return bool(batch) and go(batch)

    def go(batch):
        nonlocal cur, tried
        tried += len(batch)
        for r in pool.map(_try, [(propmod, c, tier, index, kind) for c in batch]):
            if r is not None and _better(r[0], cur[0]):
                cur = r
                return True
        return False

    progress = True
    while progress and time.time() - t0 < budget_s:
        progress = False
        # delete spans, the longest first
        while True:
            spans = sorted(set(s for s in cur[1] if s[1] > s[0]), key=lambda s: s[0] - s[1])
            c0 = cur[0]
            if not attempt(c0[:a] + c0[b:] for a, b in spans):
                break
            progress = True
            if time.time() - t0 > budget_s:
                break
        # zero spans
        while time.time() - t0 < budget_s:
            spans = sorted(set(s for s in cur[1] if s[1] > s[0]), key=lambda s: s[0] - s[1])
            c0 = cur[0]
            if not attempt(c0[:a] + [0] * (b - a) + c0[b:] for a, b in spans
                           if any(c0[a:b])):
                break
            progress = True
        # delete chunks
        for size in (16, 8, 4, 2, 1):
            while time.time() - t0 < budget_s:
                c0 = cur[0]
                if not attempt(c0[:a] + c0[a + size:]
                               for a in range(len(c0) - size, -1, -max(1, size // 2))):
                    break
                progress = True
        # lower single draws
        while time.time() - t0 < budget_s:
            c0 = cur[0]

            def lows():
                for a, v in enumerate(c0):
                    if v:
                        for w in sorted({0, v // 2, v - 1}):
                            if w < v:
                                yield c0[:a] + [w] + c0[a + 1:]
            if not attempt(lows()):
                break
            progress = True
    log("shrunk %d draws to %d in %.0f s, %d candidates" % (len(choices), len(cur[0]),
                                                            time.time() - t0, tried))
    return cur


def campaign(prop, propmod, seed, tier, ncases, max_s, level="exploration", rule="",
             assumptions=(), known=(), extra_cov=None, shrink_s=90):
    """Runs the whole check of a property and exits the process."""
    t0 = time.time()
    try:
        exe, sysapl, bt = B.build_april()
    except B.BuildError as e:
        print("BUILD ERROR: %s" % e)
        sys.exit(2)
    os.environ["APRIL_EXE"], os.environ["APRIL_SYS"] = exe, sysapl
    print("built in %.1f s; %s %s seed %s: up to %d cases" % (bt, prop, tier, seed, ncases))
    sys.stdout.flush()
    t1 = time.time()
    stats = {"eval": 0, "units": 0, "rejected": 0, "nontrivial": set(), "distinct": set(),
             "tags": {}, "samples": [], "draws": 0, "lost": 0, "unreproduced": []}
    failure = None
    fails = []
    farm = Farm(B.JOBS)
    for _, r in farm.run(_one, ((propmod, seed, k, tier) for k in _upto(ncases, t1, max_s))):
        if r is None:
            stats["lost"] += 1
            continue
        if r.get("reject"):
            stats["rejected"] += 1
            continue
        stats["eval"] += 1
        stats["units"] += r["units"]
        stats["draws"] += r["ndraws"]
        stats["distinct"].add(r["key"])
        if r["nontrivial"]:
            stats["nontrivial"].add(r["key"])
        for t, n in r["tags"].items():
            stats["tags"][t] = stats["tags"].get(t, 0) + n
        if "sample" in r:
            stats["samples"].append((r["k"], r["sample"]))
        if r["msg"]:
            # a failure counts when the same case fails again; a passing disturbance of the
            # machine (memory, a signal) must not raise an alarm and must not end the search
            if not any(_again(propmod, r, tier) for _ in range(8)):
                stats["unreproduced"].append(r["msg"][:200])
                print("case %d failed once and not in 8 repetitions: %s" % (r["k"], r["msg"]))
                continue
            fails.append(r)
            break
    farm.abandon()
    if fails:
        failure = min(fails, key=lambda r: r["ndraws"])
    nviol = 0
    replay = None
    if failure:
        print("case %d fails: %s" % (failure["k"], failure["msg"]))
        sys.stdout.flush()
        cur = shrink(farm, propmod, failure["choices"], tier, failure["k"], shrink_s, print,
                     kind_of(failure["msg"]))
        choices = cur[0] if cur else failure["choices"]
        _load(propmod)
        src = Src(None, choices)
        src.tier, src.index = tier, failure["k"]
        case = make_case(_gen.gen, src)
        confirmed = 0
        last = None
        for _ in range(3):
            last, res = check_case(case)
            if last:
                confirmed += 1
        if confirmed < 3 and cur is not None:
            # the shrunk form is unstable: fall back to the original case
            src = Src(None, failure["choices"])
            src.tier, src.index = tier, failure["k"]
            case = make_case(_gen.gen, src)
            choices = failure["choices"]
            confirmed = 0
            for _ in range(3):
                last, res = check_case(case)
                if last:
                    confirmed += 1
        if confirmed > 0:
            nviol = 1
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            h = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]
            replay = os.path.join(d, "%s-%s.json" % (prop, h))
            json.dump({"property": prop, "module": propmod, "case": case, "choices": choices,
                       "message": last, "confirmed_runs": confirmed,
                       "observed": [r.brief() for r in res],
                       "replay_with": "python3 check.py --replay %s" % replay},
                      open(replay, "w"), indent=1)
        else:
            print("the failure did not reproduce in 3 replays of the saved case; ignored: %s"
                  % failure["msg"])
    farm.close()
    wall = time.time() - t0
    cov = {
        "evaluations": stats["eval"],
        "distinct_nontrivial": len(stats["nontrivial"]),
        "rule": rule,
        "samples": [s for _, s in sorted(stats["samples"], key=lambda x: x[0])][:3],
        "units_in_cases": stats["units"],
        "distinct_cases": len(stats["distinct"]),
        "rejected_draws": stats["rejected"],
        "lost_cases": stats["lost"],
        "failed_once_not_in_8_repetitions": stats["unreproduced"],
        "classes": dict(sorted(stats["tags"].items())),
        "fuzz_s": round(time.time() - t1, 1),
    }
    if extra_cov:
        cov.update(extra_cov)
    if stats["eval"] < ncases and not failure:
        cov["stopped_by_wall_clock_after_s"] = max_s
    write_evidence(prop, tier, seed, level, cov, wall, assumptions, nviol)
    for t, n in sorted(stats["tags"].items()):
        print("  class %-40s %d" % (t, n))
    print("%d cases (%d units, %d distinct, %d non-trivial) in %.1f s" % (
        stats["eval"], stats["units"], len(stats["distinct"]), len(stats["nontrivial"]), wall))
    for kf in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, kf))
    if nviol:
        print("  " + str(last))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        sys.stdout.flush()
        sys.exit(1)
    sys.exit(0)


def _again(propmod, r, tier):
    return _try((propmod, r["choices"], tier, r["k"], None)) is not None


def _upto(n, t1, max_s):
    for k in range(n):
        if time.time() - t1 > max_s:
            return
        yield k


def write_evidence(prop, tier, seed, level, cov, wall, assumptions, nviol):
    d = os.path.join(VERIF, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": int(seed), "level": level,
                   "coverage": cov, "wall_s": round(wall, 2),
                   "assumptions": list(assumptions), "violations": nviol}, f, indent=1)


def replay_file(path):
    exe, sysapl, _ = B.build_april()
    os.environ["APRIL_EXE"], os.environ["APRIL_SYS"] = exe, sysapl
    r = json.load(open(path))
    msg, res = check_case(r["case"])
    for x in res:
        print(json.dumps(x.brief(4000), indent=1))
    print("FAILS: %s" % msg if msg else "passes")
    return 1 if msg else 0
