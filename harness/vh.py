"""Shared runner: seeded case generation over several processes, monitors'
counters, evidence, violations, known findings.

A check module in harness/checks/ defines
    CASES   list of (name, function(ctx, rng, i), quick_count, thorough_count)
    RULE    one sentence: how cases are made and what makes one non-trivial
    REQUIRE names of monitor counters that must be non-zero, else the run is
            inconclusive (exit 2), never a pass
A case function executes the real code and raises Violation when an oracle
disagrees.  An unexpected exception raised from the repository's code during a
valid workload is a violation as well; one raised by the harness is an error.
"""
import hashlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Violation(Exception):
    """An oracle observed behaviour that breaks the property."""


class _Timeout(BaseException):
    pass


def must(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def same(got, want, msg, *args):
    if got != want:
        raise Violation(f"{msg % args if args else msg}: got {got!r}, expected {want!r}"[:6000])


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.counts = {}
        self.evals = 0
        self.keys = set()
        self.samples = []
        self.knowns = {}
        self.trail = []

    def saw(self, name, k=1):
        self.counts[name] = self.counts.get(name, 0) + k

    def log(self, *what):
        """Step of the case being run, kept for the replay file."""
        self.trail.append(what)

    def case(self, key, nontrivial=True):
        """One evaluated case; key identifies it for the distinct count."""
        self.evals += 1
        if nontrivial:
            if not isinstance(key, bytes):
                key = repr(key).encode()
            self.keys.add(hashlib.blake2b(key, digest_size=8).digest())

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(obj if isinstance(obj, (str, dict, list)) else repr(obj))

    def known(self, key, detail):
        """A failure by a mechanism that may be a recorded finding."""
        if (self.prop, key) not in KNOWN:
            raise Violation(detail)
        self.knowns[key] = self.knowns.get(key, 0) + 1


def _load_known():
    out = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: "):
                f = line.split(None, 3)
                out[(f[1].split("=", 1)[1], f[2].split("=", 1)[1])] = f[3].strip()
    return out


KNOWN = _load_known()


def _origin(ex):
    """'repo' or 'harness' by the innermost frame that is in either."""
    shims = os.path.join(VERIF, "shims") + os.sep
    mine = VERIF + os.sep
    repo = os.path.realpath(REPO) + os.sep
    for fr in reversed(traceback.extract_tb(ex.__traceback__)):
        fn = os.path.realpath(fr.filename)
        if fn.startswith(shims):
            continue
        if fn.startswith(repo):
            return "repo"
        if fn.startswith(mine):
            return "harness"
    return "harness"


CASE_LIMIT = 150


def _one(ctx, prop, name, fn, i):
    rng = random.Random(f"{ctx.seed}:{prop}:{name}:{i}")
    ctx.trail = []

    def onalarm(*_):
        raise _Timeout()
    signal.signal(signal.SIGALRM, onalarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_LIMIT)
    try:
        fn(ctx, rng, i)
        return None
    except Violation as ex:
        kind, text, tb = "violation", str(ex), ""
    except _Timeout as ex:
        kind = "violation" if _origin(ex) == "repo" else "error"
        text, tb = f"case did not finish within {CASE_LIMIT}s", traceback.format_exc()
    except Exception as ex:
        kind = "violation" if _origin(ex) == "repo" else "error"
        text, tb = f"unexpected {type(ex).__name__}: {ex}", traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return dict(kind=kind, case=name, index=i, seed=ctx.seed, tier=ctx.tier, message=text[:8000],
                traceback=tb[-6000:], steps=[repr(s)[:400] for s in ctx.trail[-400:]])


def _worker(prop, mod, jobs, tier, seed, stop_at, path, home):
    os.makedirs(home, exist_ok=True)
    os.environ["HOME"] = home
    os.environ["TMPDIR"] = home
    tempfile.tempdir = home
    ctx = Ctx(prop, tier, seed)
    bad = []
    done = {}
    for name, fn, i in jobs:
        if time.time() > stop_at:
            break
        r = _one(ctx, prop, name, fn, i)
        done[name] = done.get(name, 0) + 1
        if r:
            bad.append(r)
            if len(bad) >= 3 or r["kind"] == "violation":
                break
    with open(path + ".tmp", "w") as f:
        json.dump(dict(counts=ctx.counts, evals=ctx.evals, keys=[k.hex() for k in ctx.keys],
                       samples=ctx.samples, bad=bad, done=done, knowns=ctx.knowns), f)
    os.replace(path + ".tmp", path)


def run(prop, level, mod, only=None):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    limit = getattr(mod, "LIMIT", {}).get(tier, 240 if tier == "quick" else 720)
    limit = float(os.environ.get("VERIF_LIMIT", limit))
    stop_at = t0 + limit
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    jobs = []
    per = []
    for name, fn, nq, nt in mod.CASES:
        n = nt if tier == "thorough" else nq
        per.append([(name, fn, i) for i in range(n)])
    if only:
        jobs = [(n, f, int(only[1])) for n, f, _, _ in mod.CASES if n == only[0]]
    else:  # interleave the case kinds so that a time limit cuts all alike
        k = sorted(((j + 0.5) / len(js), a, j) for a, js in enumerate(per) for j in range(len(js)))
        jobs = []
        mix = random.Random(0)
        for n in range(0, len(k), 256):  # shuffled so that every worker gets some of each
            part = k[n:n + 256]
            mix.shuffle(part)
            jobs += [per[a][j] for _, a, j in part]
    nw = max(1, min(int(os.environ.get("VERIF_JOBS", "8")), len(jobs)))
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    pids = {}
    try:
        for w in range(nw):
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.setpgid(0, 0)
                    _worker(prop, mod, jobs[w::nw], tier, seed, stop_at,
                            os.path.join(scratch, f"r{w}"), os.path.join(scratch, f"h{w}"))
                except BaseException:
                    traceback.print_exc()
                    code = 3
                finally:
                    sys.stdout.flush()
                    sys.stderr.flush()
                    os._exit(code)
            pids[pid] = w
        failed = []
        left = set(pids)
        while left:
            pid, st = os.wait()
            if pid in left:
                left.discard(pid)
                if st != 0:
                    failed.append((pids[pid], st))
                elif os.path.exists(os.path.join(scratch, f"r{pids[pid]}")):
                    with open(os.path.join(scratch, f"r{pids[pid]}")) as f:
                        if any(b["kind"] == "violation" for b in json.load(f)["bad"]):
                            for p in left:  # a violation is enough
                                try:
                                    os.kill(p, signal.SIGKILL)
                                except ProcessLookupError:
                                    pass
                            for p in list(left):
                                try:
                                    os.waitpid(p, 0)
                                except ChildProcessError:
                                    pass
                            left.clear()
        res = []
        for w in range(nw):
            path = os.path.join(scratch, f"r{w}")
            if os.path.exists(path):
                with open(path) as f:
                    res.append(json.load(f))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    counts, done, knowns = {}, {}, {}
    evals, keys, samples, bad = 0, set(), [], []
    for r in res:
        evals += r["evals"]
        keys.update(r["keys"])
        bad += r["bad"]
        for src, dst in ((r["counts"], counts), (r["done"], done), (r["knowns"], knowns)):
            for k, v in src.items():
                dst[k] = dst.get(k, 0) + v
        for s in r["samples"]:
            if len(samples) < 6:
                samples.append(s)
    viol = [b for b in bad if b["kind"] == "violation"]
    errs = [b for b in bad if b["kind"] == "error"]
    ev = dict(property=prop, tier=tier, seed=seed, level=level,
              coverage=dict(evaluations=evals, distinct_nontrivial=len(keys), rule=mod.RULE,
                            samples=samples, monitor_counts=dict(sorted(counts.items())),
                            cases_run=dict(sorted(done.items())),
                            cases_planned=len(jobs), workers=nw),
              assumptions=list(getattr(mod, "ASSUME", [])),
              wall_s=round(time.time() - t0, 2), violations=len(viol))
    if knowns:
        ev["coverage"]["known_findings_observed"] = knowns
    with open(os.path.join(evdir, f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
    for k in sorted(knowns):
        print(f"KNOWN-FINDING: property={prop} {k}: {KNOWN[(prop, k)]}")
    if viol:
        b = viol[0]
        path = os.path.join(evdir, f"replay-{prop}.json")
        with open(path, "w") as f:
            json.dump(dict(b, property=prop,
                           how=f"VERIF_SEED={seed} VERIF_TIER={tier} python3 harness/run.py {prop} --case {b['case']} {b['index']}"),
                      f, indent=1)
        print(f"{b['case']}[{b['index']}]: {b['message'][:1500]}")
        if b["traceback"]:
            print(b["traceback"][-1500:])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if errs or failed:
        for b in errs[:2]:
            print(f"ERROR {b['case']}[{b['index']}]: {b['message'][:1500]}\n{b['traceback'][-2500:]}")
        for w, st in failed:
            print(f"ERROR worker {w} ended with status {st}")
        return 2
    miss = [n for n in getattr(mod, "REQUIRE", []) if not counts.get(n)]
    if (miss or not keys) and not only:
        print(f"INCONCLUSIVE {prop}: monitors never saw {miss or 'any case'}")
        return 2
    print(f"OK {prop}: {evals} evaluations, {len(keys)} distinct, {ev['wall_s']}s "
          f"({', '.join(f'{k}={v}' for k, v in sorted(counts.items()))})")
    return 0
