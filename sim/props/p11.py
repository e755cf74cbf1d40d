"""P11: deterministic evaluations depend on nothing but their inputs."""
import copy
import json
import os
import subprocess
import sys

import torch

from sim import core, env, zoo
from sim.core import CaseTimeout, Skip, Violation, shrink_list
from sim.props import p02

RUNS = {"quick": 150, "thorough": 18000}
RULE = "one run = one evaluation (value, gradient or both) repeated in several environments that differ in everything but its inputs, compared bit for bit with the first; distinct = distinct event-log digest (bits of the results and environments), nontrivial = at least two environments"
TIME = "number of evaluations is the only clock"
MEASURE = "distinct (evaluation, part, memory content, what ran before, table order) tuples"
REAL = ["pyoptmat.ode", "pyoptmat.chunktime", "pyoptmat.solvers", "pyoptmat.models and material laws", "pyoptmat.utility", "pyoptmat.optimize", "pyoptmat.experiments", "pyro ELBO"]
STUBS = ["contents of freshly allocated memory (chosen bit patterns)", "states of the torch, numpy and python random streams", "history of earlier calls, including failed ones", "insertion order of lookup tables, hash seed of the interpreter"]
ASSUMPTIONS = ["torch kernels are deterministic with one thread", "statistical models seed their own draws in these runs"]
CHUNK = 4
EXTRA = ["load", "interp", "generators"]


def generate(rng, tier, i):
    if rng.random() < 0.02:
        return {"kind": "hash", "subs": [p02.generate(rng, tier, i) for _ in range(6)], "hs": [str(rng.randrange(1, 10**6)) for _ in range(2)]}
    if rng.random() < 0.25:
        c = {"kind": rng.choice(EXTRA), "seed": rng.randrange(10**6), "part": "val", "n": rng.randint(2, 8), "nb": rng.choice([1, 2, 4]), "perm": rng.randrange(10**6)}
    else:
        c = p02.generate(rng, tier, i)
        c.pop("faults")
    c["envs"] = []
    for _ in range(rng.choice([2, 3, 3, 4])):
        before = []
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            how = rng.choice(["sibling", "sibling-mixed", "sibling-mixed", "sibling-one", "sibling-grad", "same", "same-failed", "other", "other-failed", "inference", "double"])
            x = None
            if how.startswith("other"):
                x = p02.generate(rng, tier, i)
                while x["kind"] in ("hier", "stat", "model"):
                    x = p02.generate(rng, tier, i)
                x.pop("faults")
                x["seed"] = rng.randrange(10**6)
            before.append([how, round(rng.random(), 4), x])
        c["envs"].append(
            {
                "poison": rng.choice([None, "nan", "nan", "huge", "inf", "one", "neg", "zero"]),
                "rng": rng.choice([None, rng.randrange(10**6)]),
                "before": before,
                "tables": rng.choice([None, None, rng.randrange(10**6)]),
                "repeat": rng.choice([1, 1, 2, 3]),
            }
        )
    return c


# -------------------------------------------------------------------- subjects
class Small:
    """evaluations P02 does not have"""

    random = False
    close = False

    def __init__(self, c):
        from pyoptmat import experiments as e, utility

        self.hook = p02.Hook()
        g = torch.Generator().manual_seed(c["seed"])
        n, nb = c["n"], c["nb"]
        self.tensors = []
        if c["kind"] == "load":
            from sim.props import p13

            d = {"n": n, "tests": [[list(zoo.TYPES)[(c["seed"] + k) % 7], (c["seed"] >> k) % 2] for k in range(nb)], "dseed": c["seed"], "dtypes": ["f8"] * 4 + ["i8"], "labels": "str"}
            a = p13.arrays(d, p13.stored(d))

            def call():
                keys = list(a)
                # another insertion order
                core.random.Random(torch.initial_seed() % 1000).shuffle(keys)
                return [x.clone() for x in e.load_results(p13.Mapping({k: a[k] for k in keys}, None, None))]

            self.call = call
        elif c["kind"] == "interp":
            t = torch.cumsum(torch.rand(n, nb, generator=g) + 0.1, 0)
            v = torch.randint(0, 50, (n, nb), generator=g) / 8.0
            if c.get("mix"):
                v = torch.tensor([(mixed if c["mix"] == "sibling-mixed" else one)(r) for r in v.t().tolist()]).t().contiguous()
            tracked = bool(c["seed"] % 2)
            v.requires_grad_(tracked)
            q = t[0] + torch.rand(5, nb, generator=g) * (t[-1] - t[0])

            def call():
                y = utility.ArbitraryBatchTimeSeriesInterpolator(t, v)(q)
                z = utility.BatchTimeSeriesInterpolator(t, v)(q[0])
                gr = torch.autograd.grad(y.sum() + z.sum(), v)[0] if tracked else v
                return [y.detach(), z.detach(), gr]

            self.call = call
        else:
            r = torch.rand(nb, generator=g)

            def call():
                import numpy as np

                cyc = {"max_strain": 0.01, "R": -0.5, "strain_rate": 1e-3, "tension_hold": 10.0, "compression_hold": 5.0}
                x = e.sample_cycle_normalized_times(cyc, 2, nload=n, nhold=n)
                y = e.sample_tension({"max_strain": 0.1, "strain_rate": 1e-3}, nsteps=n)
                return (
                    list(e.make_tension_tests(1e-3 * (r + 0.1), 300 + 100 * r, 0.1 * (r + 0.1), n + 1))
                    + list(e.make_creep_tests(100 * (r + 0.1), 500 + r, 1.0 + r, 1e4 * (1 + r), n, n, logspace=bool(c["seed"] % 2)))
                    + [torch.from_numpy(np.array(v)) for v in x + y]
                )

            self.call = call


def subject(c):
    return Small(c) if c["kind"] in EXTRA else p02.Subject(c)


def mixed(x):
    """the interior values in another order: same ends, sum and extremes"""
    return x[:1] + x[1:-1][::-1] + x[-1:] if len(x) > 3 else x[::-1]


def one(x):
    k = len(x) // 2
    return x[:k] + [x[k] * 0.97 + 1e-4] + x[k + 1 :]


def sibling(c, how):
    """same shapes, other values"""
    d = copy.deepcopy(c)
    if how in ("sibling-mixed", "sibling-one"):
        f = mixed if how == "sibling-mixed" else one
        for h in d.get("w", {}).get("hist", []) + d.get("cal", {}).get("tests", []):
            h["data"] = f(h["data"])
        if "y0" in d:
            d["y0"] = f(d["y0"]) if how == "sibling-mixed" else [f(r) for r in d["y0"]]
        d["mix"] = how
        return d
    if "w" in d:
        for h in d["w"]["hist"]:
            h["data"] = [0.83 * x for x in h["data"]]
            h["times"] = [1.1 * x for x in h["times"]]
    if "cal" in d:
        for h in d["cal"]["tests"]:
            h["data"] = [0.83 * x for x in h["data"]]
    if "y0" in d:
        d["y0"] = [[0.9 * x for x in r] for r in d["y0"]]
        d["times"] = [[0.9 * x for x in r] for r in d["times"]]
    d["seed"] = d["seed"] + 1
    return d


class Tables:
    """the package's lookup tables with another insertion order"""

    def __init__(self, seed):
        self.seed = seed

    def __enter__(self):
        from pyoptmat import experiments as e

        self.old = []
        if self.seed is None:
            return
        import random

        r = random.Random(self.seed)
        for n in sorted(vars(e)):
            t = getattr(e, n)
            if type(t) is dict and not n.startswith("__"):
                items = list(t.items())
                self.old.append((t, items))
                mixed = items[:]
                r.shuffle(mixed)
                t.clear()
                t.update(mixed)

    def __exit__(self, *a):
        for t, items in self.old:
            t.clear()
            t.update(items)


# -------------------------------------------------------------------- execution
def quiet(f):
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def run_before(c, how, frac, x, ctx):
    ctx.fault("before-" + how)
    if how.startswith("other"):
        S = subject(x)
    else:
        S = subject(sibling(c, how) if how.startswith("sibling") or how == "double" else c)
    try:
        if how.endswith("failed"):
            t = env.OpTracer(1 + int(frac * 400), env.InjectedError)
            with t:
                quiet(S.call)
        elif how == "inference":
            with torch.no_grad():
                quiet(S.call)
        elif how == "double":
            quiet(S.call)
            quiet(S.call)
        else:
            quiet(S.call)
    except CaseTimeout:
        raise
    except Exception as e:
        ctx.event("before failed", type(e).__name__)


def bits(xs):
    return [None if x is None else (tuple(x.shape), str(x.dtype), env.bits(x)) for x in xs]


def execute(c, ctx):
    if c["kind"] == "hash":
        return hashes(c, ctx)
    try:
        S = subject(c)
        with env.LineTracer() as lines:
            want = bits(quiet(S.call))
    except CaseTimeout:
        raise
    except Exception as e:
        raise Violation("clean-raises", f"{c['kind']}: {type(e).__name__}: {str(e)[:160]}")
    label = f"{c['kind']} {c.get('which', '')} {c.get('part', '')}"
    envs = c["envs"]
    if lines.n > 300_000:
        raise Skip("long evaluation")
    if lines.n > 60_000:
        # few repetitions of long evaluations
        ctx.probe("long-evaluations")
        envs = [dict(v, before=v["before"][:1], repeat=1) for v in envs[:2]]
    for q, v in enumerate(envs):
        core.reset_world(c["seed"] if v["rng"] is None else v["rng"])
        for how, frac, x in v["before"]:
            run_before(c, how, frac, x, ctx)
        where = f"{label} environment {q}: memory {v['poison']}, before {[b[0] for b in v['before']]}, tables {v['tables']}"
        torch.set_grad_enabled(True)
        try:
            if v["poison"]:
                ctx.fault("memory-" + v["poison"])
            if v["rng"] is not None:
                ctx.fault("other-random-state")
            if v["tables"] is not None:
                ctx.fault("other-table-order")
            with Tables(v["tables"]):
                S = subject(c)
                for rep in range(v["repeat"] if not S.close else 1):
                    world = env.World()
                    if v["poison"]:
                        with env.Poison(v["poison"]) as p:
                            got = bits(quiet(S.call))
                        ctx.probe("allocations-poisoned", p.count)
                    else:
                        got = bits(quiet(S.call))
                    world.check("random-state-used", where, ignore=("torch rng",) if S.random else ())
                    if len(got) != len(want):
                        raise Violation("differs", f"{where}: number of results")
                    for k, (a, b) in enumerate(zip(got, want)):
                        if a != b and not (v["tables"] is not None and near(a, b)):
                            raise Violation("differs", f"{where}, repetition {rep}: result {k} {delta(a, b)}")
                    ctx.probe("evaluations-compared")
        except (Violation, CaseTimeout):
            raise
        except Exception as e:
            raise Violation("raises-elsewhere", f"{where}: {type(e).__name__}: {str(e)[:160]}")
        ctx.reach((label, v["poison"], tuple(b[0] for b in v["before"]), v["tables"] is not None))
        ctx.sim_time += v["repeat"]
    for b in want:
        if b is not None:
            ctx.tensor("r", b[2])
    ctx.event([(v["poison"], v["rng"], v["tables"], v["repeat"]) for v in c["envs"]])
    ctx.nontrivial = len(c["envs"]) > 1


def near(a, b):
    """equal up to the order of a sum (another table order may reorder one)"""
    import numpy as np

    if a is None or b is None or a[:2] != b[:2] or "float64" not in a[1]:
        return False
    x, y = np.frombuffer(a[2]), np.frombuffer(b[2])
    return bool(np.all(np.abs(x - y) <= 1e-9 * np.abs(x).max()))


def delta(a, b):
    import numpy as np

    if a is None or b is None or a[:2] != b[:2]:
        return f"{a and a[:2]} instead of {b and b[:2]}"
    if "float64" not in a[1]:
        return "other values"
    x, y = np.frombuffer(a[2]), np.frombuffer(b[2])
    return f"off by {np.abs(x - y).max():.2e}"


CODE = """
import sys, json, hashlib
sys.path.insert(0, {here!r})
from sim import core
core.setup_runtime()
from sim.props import p11
print("RESULT " + json.dumps(p11.sub_digests(json.loads(sys.stdin.read()))))
"""


def sub_digests(subs):
    import hashlib

    out = []
    for s in subs:
        core.reset_world(s["seed"])
        r = bits(quiet(subject(s).call))
        out.append(hashlib.sha256(repr(r).encode()).hexdigest()[:20])
    return out


def hashes(c, ctx):
    """other interpreters with other hash seeds"""
    for k, s in enumerate(c["subs"]):
        s["seed"] = 1000 + k
    want = sub_digests(c["subs"])
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    for hs in c["hs"]:
        p = subprocess.run([sys.executable, "-c", CODE.format(here=here)], input=json.dumps(c["subs"]), capture_output=True, text=True, env=dict(os.environ, PYTHONHASHSEED=hs))
        line = [x for x in p.stdout.splitlines() if x.startswith("RESULT ")]
        if not line:
            raise Violation("raises-elsewhere", f"hash seed {hs}: {p.stderr[-300:]}")
        got = json.loads(line[0][7:])
        for k, (a, b) in enumerate(zip(got, want)):
            if a != b:
                raise Violation("differs", f"{c['subs'][k]['kind']} with hash seed {hs}")
        ctx.fault("other-hash-seed")
        ctx.reach(("hash", tuple(sorted({s["kind"] for s in c["subs"]}))))
    ctx.event(want)


def shrink(c):
    if c["kind"] == "hash":
        for s in shrink_list(c["subs"], 1):
            yield dict(c, subs=s)
        return
    for v in shrink_list(c["envs"], 1):
        yield dict(c, envs=v)
    for i, v in enumerate(c["envs"]):
        for k, d in (("poison", None), ("rng", None), ("tables", None), ("repeat", 1)):
            if v[k] != d:
                yield dict(c, envs=c["envs"][:i] + [dict(v, **{k: d})] + c["envs"][i + 1 :])
        for b in shrink_list(v["before"], 0):
            yield dict(c, envs=c["envs"][:i] + [dict(v, before=b)] + c["envs"][i + 1 :])
