"""Seeded search, shrinking, replay and evidence for all simulated properties."""
import argparse
import collections
import contextlib
import concurrent.futures as cf
import copy
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

# Overall limits.  None of them ever turns into a pass: they end in exit code 2.
CASE_TIMEOUT = 90
QUICK_WALL = 780
SHRINK_WALL = 60


class CaseTimeout(BaseException):
    """the wall-clock limit of one case (a harness error, never a verdict)"""


class Violation(Exception):
    """raised by a property's oracle"""

    def __init__(self, cls, detail):
        super().__init__(f"{cls}: {detail}")
        self.cls = cls
        self.detail = detail


class Skip(Exception):
    """the case has no meaning (counted, limited by max_skip)"""


def setup_runtime():
    """Import the heavy libraries, then the code under test from REPO."""
    import faulthandler
    import torch

    faulthandler.enable()

    torch.set_num_threads(1)
    torch.set_default_dtype(torch.float64)
    import numpy  # noqa
    import pyro  # noqa
    import warnings

    warnings.simplefilter("ignore")
    import concurrent.futures.thread  # noqa
    import functorch  # noqa
    import logging.handlers  # noqa
    import multiprocessing.pool  # noqa
    import queue  # noqa
    import matplotlib.pyplot  # noqa
    import xarray  # noqa

    # never read stale bytecode of the code under test
    sys.pycache_prefix = os.path.join(tempfile.gettempdir(), f"vf-nopyc-{os.getpid()}")
    sys.path.insert(0, REPO)
    from sim import env

    # locks of the package are simulated
    sys.modules["threading"] = env.ThreadingProxy()
    try:
        import_package()
    finally:
        sys.modules["threading"] = env.threading
    warm_up()


def import_package():
    import pyoptmat

    got = os.path.realpath(list(pyoptmat.__path__)[0])
    want = os.path.realpath(os.path.join(REPO, "pyoptmat"))
    if got != want:
        raise RuntimeError(f"imported pyoptmat from {got}, expected {want}")
    for m in (
        "utility chunktime solvers ode scaling temperature hardening flowrules damage "
        "models experiments optimize neuralode"
    ).split():
        importlib.import_module("pyoptmat." + m)


def warm_up():
    """First uses of torch features import things lazily; do that before any case."""
    import torch
    from sim import zoo
    from pyoptmat import ode

    f = zoo.make_ode(
        {"kind": "net", "size": 1, "nf": 1, "w1": [[0.1, 0.2]], "w2": [[0.1]], "b1": [0.0], "b2": [0.0]}
    )
    t = torch.linspace(0, 1, 3).unsqueeze(-1)
    y0 = torch.zeros(1, 1, requires_grad=True)
    for fn in (ode.odeint, ode.odeint_adjoint):
        torch.autograd.grad(fn(f, y0, t).sum(), [y0])


def load_prop(pid):
    return importlib.import_module(f"sim.props.{pid.lower()}")


def case_rng(seed, pid, i):
    h = hashlib.sha256(f"{seed}/{pid}/{i}".encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def reset_world(seed):
    """Put every global source of randomness/state in a known position."""
    import numpy as np
    import pyro
    import torch

    torch.set_default_dtype(torch.float64)
    torch.set_grad_enabled(True)
    torch.use_deterministic_algorithms(False)
    torch.autograd.set_detect_anomaly(False)
    torch.set_num_threads(1)
    np.seterr(all="warn")
    pyro.clear_param_store()
    del pyro.poutine.runtime._PYRO_STACK[:]
    torch.manual_seed(seed)
    np.random.seed(seed % (2**32))
    random.seed(seed)


class Ctx:
    """Handed to every execution: statistics, event log."""

    def __init__(self):
        self.stats = collections.Counter()
        self.kinds = collections.Counter()
        self.cover = set()
        self.log = hashlib.sha256()
        self.nevents = 0
        self.sim_time = 0.0
        self.nontrivial = True
        self.max_err = 0.0
        self.held = []

    def event(self, *what):
        """Append to the event log (never draws randomness, never reads a clock)."""
        self.nevents += 1
        self.log.update(repr(what).encode())

    def fault(self, kind, n=1):
        self.kinds[kind] += n
        self.event("fault", kind, n)

    def probe(self, name, n=1):
        self.stats[name] += n

    def reach(self, item):
        self.cover.add(item if isinstance(item, str) else repr(item))

    def verify_held(self):
        """Results that were handed out earlier must still be what they were."""
        for name, x, old in self.held:
            if x.detach().cpu().contiguous().numpy().tobytes() != old:
                raise Violation("earlier-result-changed", f"{name}: the tensor returned earlier holds other values now")

    def tensor(self, name, x, hold=None):
        """Log the exact bits of a result; ``hold`` (a description): it may never change later."""
        import torch

        if isinstance(x, torch.Tensor):
            if hold is not None:
                self.held.append((hold, x, x.detach().cpu().contiguous().numpy().tobytes()))
            x = x.detach().cpu().contiguous().numpy().tobytes()
        self.event(name, hashlib.sha256(x).hexdigest()[:16])

    def close(self, got, want, tol, cls, detail=""):
        """Oracle comparison: |got-want| <= tol*scale elementwise, NaN never passes."""
        import torch

        if tuple(got.shape) != tuple(want.shape):
            raise Violation(cls, f"shape {tuple(got.shape)} != {tuple(want.shape)} {detail}")
        if got.numel() == 0:
            return
        got, want = got.detach(), want.detach()
        if not bool(torch.isfinite(got).all()):
            raise Violation(cls, f"non-finite values {detail}")
        scale = want.abs().max().item() + 1e-12
        err = ((got - want).abs().max().item()) / scale
        self.max_err = max(self.max_err, err / tol)
        if not err <= tol:
            raise Violation(cls, f"relative difference {err:.3e} > {tol:.1e} {detail}")


def _alarm(signum, frame):
    raise CaseTimeout()


class Hung(CaseTimeout):
    """the case executed more lines of the package than any finite evaluation needs"""


class Budget:
    """Counts executed lines of the package (used to judge runs that hit the wall clock)."""

    LINES = 15_000_000

    def __enter__(self):
        from sim import env

        mon = sys.monitoring
        self.n = 0

        def line(code, no):
            if not env.owned(code):
                return mon.DISABLE
            self.n += 1
            if self.n > self.LINES:
                raise Hung()

        mon.use_tool_id(4, "budget")
        mon.register_callback(4, mon.events.LINE, line)
        mon.set_events(4, mon.events.LINE)
        return self

    def __exit__(self, *a):
        Budget.last = self.n
        mon = sys.monitoring
        mon.set_events(4, 0)
        mon.register_callback(4, mon.events.LINE, None)
        mon.free_tool_id(4)
        mon.restart_events()


def execute(prop, case, timeout=CASE_TIMEOUT):
    """Run one case; a run that exceeds the wall clock is judged by a count of executed lines."""
    r = execute_once(prop, case, timeout)
    if r["status"] == "error" and r["cls"] == "timeout":
        r = execute_once(prop, case, 4 * timeout, Budget())
    return r


def execute_once(prop, case, timeout, budget=None):
    import warnings

    ctx = Ctx()
    out = {"status": "ok", "cls": None, "detail": None}
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            reset_world(case.get("seed", 0))
            with budget or contextlib.nullcontext():
                prop.execute(case, ctx)
            ctx.verify_held()
    except Violation as v:
        out.update(status="violation", cls=v.cls, detail=v.detail)
    except Skip as s:
        out.update(status="skip", cls=str(s))
    except Hung:
        out.update(status="violation", cls="does-not-terminate", detail=f"more than {Budget.LINES} source lines executed in one run")
    except CaseTimeout:
        out.update(status="error", cls="timeout", detail=f"case exceeded {timeout} s")
    except Exception as e:  # harness error
        out.update(status="error", cls=type(e).__name__, detail=traceback.format_exc()[-1800:])
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        sys.settrace(None)
    out.update(
        stats=dict(ctx.stats),
        kinds=dict(ctx.kinds),
        cover=sorted(ctx.cover),
        digest=ctx.log.hexdigest()[:24],
        nevents=ctx.nevents,
        sim_time=ctx.sim_time,
        nontrivial=ctx.nontrivial,
        max_err=ctx.max_err,
    )
    return out


def _job(args):
    pid, seed, tier, lo, hi = args
    prop = load_prop(pid)
    res = []
    for i in range(lo, hi):
        case = gen_case(prop, pid, seed, tier, i)
        r = execute(prop, case)
        r["i"] = i
        r["case_digest"] = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]
        res.append(r)
        if r["status"] in ("violation", "error"):
            break
    return res


def gen_case(prop, pid, seed, tier, i):
    rng = case_rng(seed, pid, i)
    case = prop.generate(rng, tier, i)
    case.setdefault("seed", rng.randrange(2**31))
    # make sure that the case is what a replay file would contain
    return json.loads(json.dumps(case))


# ------------------------------------------------------------------ shrinking
def shrink_list(xs, keep=0):
    """Candidate shorter lists (halves first, then single removals)."""
    n = len(xs)
    size = n // 2
    while size >= 1:
        for a in range(0, n, size):
            ys = xs[:a] + xs[a + size :]
            if len(ys) >= keep and len(ys) < n:
                yield ys
        size //= 2


def minimise(prop, case, cls, wall=SHRINK_WALL):
    """Greedy shrink while the same violation class persists."""
    t0 = time.time()
    best, tried = case, 0
    improved = True
    while improved and time.time() - t0 < wall:
        improved = False
        for cand in prop.shrink(copy.deepcopy(best)):
            if time.time() - t0 > wall:
                break
            cand = json.loads(json.dumps(cand))
            if cand == best:
                continue
            tried += 1
            r = execute(prop, cand, timeout=30)
            if r["status"] == "violation" and r["cls"] == cls:
                best = cand
                improved = True
                break
    return best, tried


def known_findings():
    path = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path)).get("findings", [])


def write_replay(pid, case, outcome, origin):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    blob = {
        "property": pid,
        "class": outcome["cls"],
        "detail": outcome["detail"],
        "digest": outcome["digest"],
        "origin": origin,
        "case": case,
    }
    h = hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(d, f"{pid}-{h}.json")
    with open(path, "w") as f:
        json.dump(blob, f, indent=1)
    return path


def replay(path, quiet=False):
    blob = json.load(open(path))
    setup_runtime()
    prop = load_prop(blob["property"])
    r = execute(prop, blob["case"])
    if not quiet:
        print(f"replay {path}: {r['status']} {r['cls']} {r['detail']}")
        print(f"event-log digest {r['digest']} (recorded {blob.get('digest')})")
    if r["status"] == "violation":
        print(f"VIOLATION property={blob['property']} replay={path}")
        return 1
    return 0 if r["status"] in ("ok", "skip") else 2


# ---------------------------------------------------------------------- check
def check(pid, tier, seed, runs=None, workers=None):
    t0 = time.time()
    setup_runtime()
    prop = load_prop(pid)
    n = runs or prop.RUNS[tier]
    workers = workers or min(8, os.cpu_count() or 1)
    chunk = getattr(prop, "CHUNK", 4)
    print(f"{pid} tier={tier} seed={seed} runs={n} workers={workers} repo={REPO}", flush=True)
    jobs = [(pid, seed, tier, lo, min(lo + chunk, n)) for lo in range(0, n, chunk)]
    results, errors, viols = {}, [], []
    wall = QUICK_WALL if tier == "quick" else 6 * 3600
    timed_out = False
    ctx = mp.get_context("fork")
    todo, deaths, stop = collections.deque(jobs), 0, False
    while todo and not stop and not timed_out:
        pool = cf.ProcessPoolExecutor(workers, mp_context=ctx)
        pending = {}
        try:
            while True:
                while not stop and todo and len(pending) < workers * 2:
                    j = todo.popleft()
                    pending[pool.submit(_job, j)] = j
                if not pending:
                    break
                done, _ = cf.wait(pending, timeout=5, return_when=cf.FIRST_COMPLETED)
                for f in done:
                    rs = f.result()
                    pending.pop(f)
                    for r in rs:
                        results[r["i"]] = r
                        if r["status"] == "violation":
                            viols.append(r)
                            stop = True
                        elif r["status"] == "error":
                            errors.append(r)
                            if len(errors) >= 5:
                                stop = True
                if time.time() - t0 > wall:
                    timed_out = True
                    break
        except cf.process.BrokenProcessPool:
            # a worker process died (e.g. ended for lack of memory): its runs are repeated
            deaths += 1
            todo.extendleft(reversed(list(pending.values())))
            print(f"worker process died ({deaths}), repeating its runs", flush=True)
            if deaths > 3:
                errors.append({"i": -1, "cls": "worker-died", "detail": f"{deaths} worker processes died"})
                stop = True
        finally:
            for p in list((pool._processes or {}).values()):
                if timed_out:
                    p.kill()
            pool.shutdown(wait=not timed_out, cancel_futures=True)

    known = []
    code = 0
    vlines = []
    if viols:
        viols.sort(key=lambda r: r["i"])
        reported = set()
        for v in viols:
            if v["cls"] in reported or len(reported) >= 3:
                continue
            case = gen_case(prop, pid, seed, tier, v["i"])
            kf = match_known(pid, v)
            if kf:
                known.append((kf, v))
                continue
            reported.add(v["cls"])
            print(f"run {v['i']} violates {pid}: {v['cls']}: {v['detail']}", flush=True)
            if v["cls"] == "does-not-terminate":
                small, tried, r = case, 0, v
            else:
                small, tried = minimise(prop, case, v["cls"], SHRINK_WALL if tier == "quick" else 300)
                r = execute(prop, small)
            if r["status"] != "violation":
                small, r = case, v
            path = write_replay(
                pid, small, r, {"seed": seed, "run": v["i"], "tier": tier, "shrink_attempts": tried}
            )
            p = subprocess.run(
                [sys.executable, os.path.join(HERE, "run.py"), "replay", path],
                capture_output=True,
                text=True,
                timeout=5 * CASE_TIMEOUT + 60,
            )
            same = r["digest"] in p.stdout
            print(f"minimised after {tried} attempts: {r['cls']}: {r['detail']}")
            print(f"fresh-process replay: exit {p.returncode}, identical event log: {same}")
            if p.returncode == 1:
                vlines.append(f"VIOLATION property={pid} replay={path}")
                code = 1
            else:
                errors.append(
                    {"i": v["i"], "cls": "replay-mismatch", "detail": p.stdout[-600:] + p.stderr[-600:]}
                )
    for kf, v in known:
        print(f"KNOWN-FINDING: property={pid} {kf['what']}")
    skips = sum(1 for r in results.values() if r["status"] == "skip")
    max_skip = getattr(prop, "MAX_SKIP", 0.05)
    if not viols and len(results) and skips > max(2, max_skip * len(results)):
        reasons = collections.Counter(r["cls"] for r in results.values() if r["status"] == "skip")
        errors.append({"i": -1, "cls": "too-many-skips", "detail": f"{skips}/{len(results)} {reasons}"})
    if timed_out:
        errors.append({"i": -1, "cls": "wall", "detail": f"only {len(results)} of {n} runs in {wall}s"})
    write_evidence(prop, pid, tier, seed, results, len(vlines), time.time() - t0, n, workers)
    for e in errors[:3]:
        print(f"HARNESS-ERROR run {e['i']}: {e['cls']}: {e['detail']}")
    if code == 0 and errors:
        code = 2
    for l in vlines:
        print(l)
    ok = sum(1 for r in results.values() if r["status"] == "ok")
    print(f"{pid}: {ok} ok, {skips} skipped, {len(viols)} violating, {len(errors)} errors, {time.time()-t0:.1f}s")
    return code


def match_known(pid, v):
    for k in known_findings():
        if k["property"] == pid and k.get("class") == v["cls"] and k.get("match", "") in v["detail"]:
            return k
    return None


def write_evidence(prop, pid, tier, seed, results, nviol, wall, n, workers):
    rs = [results[i] for i in sorted(results)]
    stats, kinds, cover = collections.Counter(), collections.Counter(), set()
    distinct = set()
    sim_time = 0.0
    for r in rs:
        stats.update(r["stats"])
        kinds.update(r["kinds"])
        cover.update(r["cover"])
        sim_time += r["sim_time"]
        if r["status"] == "ok" and r["nontrivial"]:
            distinct.add(r["digest"])
    samples = []
    for r in rs[:3]:
        samples.append(
            {
                "run": r["i"],
                "status": r["status"],
                "events": r["nevents"],
                "event_log_digest": r["digest"],
                "case": gen_case(prop, pid, seed, tier, r["i"]),
            }
        )
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": getattr(prop, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": len(rs),
            "distinct_nontrivial": len(distinct),
            "rule": prop.RULE,
            "samples": samples,
            "runs_planned": n,
            "runs_per_hour": round(len(rs) / max(wall, 1e-9) * 3600),
            "seeds_per_hour": round(len(rs) / max(wall, 1e-9) * 3600),
            "workers": workers,
            "skipped": sum(1 for r in rs if r["status"] == "skip"),
            "simulated_time_s": round(sim_time, 3),
            "simulated_time_meaning": getattr(prop, "TIME", "no simulated clock in this property"),
            "faults_injected": dict(sorted(kinds.items())),
            "probes": dict(sorted(stats.items())),
            "distinct_states": len(cover),
            "distinct_states_measure": getattr(prop, "MEASURE", "distinct event-log digests"),
            "event_log_entries": sum(r["nevents"] for r in rs),
            "worst_error_over_tolerance": max([r["max_err"] for r in rs] or [0.0]),
            "real_code": prop.REAL,
            "stubs": prop.STUBS,
        },
        "assumptions": prop.ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": nviol,
    }
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, f"{pid}.json"))


# ------------------------------------------------------------------ self test
def digests(pid, seed, n, workers):
    setup_runtime()
    jobs = [(pid, seed, "quick", lo, min(lo + 2, n)) for lo in range(0, n, 2)]
    out = {}
    with cf.ProcessPoolExecutor(workers, mp_context=mp.get_context("fork")) as pool:
        for rs in pool.map(_job, jobs):
            for r in rs:
                out[str(r["i"])] = [r["status"], r["digest"], r["case_digest"]]
    return out


def selftest(pids, n=24):
    """Same seeds in fresh interpreters: other worker counts and hash seeds."""
    bad = 0
    for pid in pids:
        outs = []
        for workers, hs, seed in [(8, "0", 7), (1, "1", 7), (3, "12345", 7), (8, "77", 7)]:
            env = dict(os.environ, PYTHONHASHSEED=hs)
            p = subprocess.run(
                [sys.executable, os.path.join(HERE, "run.py"), "digests", pid, str(seed), str(n), str(workers)],
                capture_output=True,
                text=True,
                env=env,
            )
            if p.returncode != 0:
                print(pid, "digest run failed", p.stderr[-500:])
                bad += 1
                break
            outs.append(json.loads(p.stdout.strip().splitlines()[-1]))
        else:
            diff = [i for i in outs[0] if any(o.get(i) != outs[0][i] for o in outs[1:])]
            print(f"{pid}: {len(outs[0])} runs x {len(outs)} interpreters, {len(diff)} differ {diff[:5]}", flush=True)
            bad += bool(diff)
    return 1 if bad else 0


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("cmd")
    ap.add_argument("args", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    a = ap.parse_args(argv)
    try:
        if a.cmd == "setup":
            setup_runtime()
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            print("ready")
            return 0
        if a.cmd == "check":
            return check(a.args[0], a.tier, a.seed, a.runs, a.workers)
        if a.cmd == "replay":
            return replay(a.args[0])
        if a.cmd == "case":
            setup_runtime()
            prop = load_prop(a.args[0])
            case = gen_case(prop, a.args[0], a.seed, a.tier, int(a.args[1]))
            print(json.dumps(case))
            r = execute(prop, case)
            print(json.dumps(r, indent=1))
            return {"ok": 0, "skip": 0, "violation": 1}.get(r["status"], 2)
        if a.cmd == "digests":
            pid, seed, n, w = a.args
            print(json.dumps(digests(pid, int(seed), int(n), int(w))))
            return 0
        if a.cmd == "selftest":
            pids = a.args or [
                f[:-3].upper() for f in sorted(os.listdir(os.path.join(HERE, "sim/props"))) if f[0] == "p" and f[1:3].isdigit()
            ]
            return selftest(pids, a.runs or 24)
    except Exception:
        traceback.print_exc()
        return 2
    print("unknown command")
    return 2
