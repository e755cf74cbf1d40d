"""P07: predictions do not depend on how tests are grouped, ordered or redelivered."""
import torch

from sim import env, zoo
from sim.core import CaseTimeout, Skip, Violation, shrink_list
from sim.props import p06

RUNS = {"quick": 200, "thorough": 20000}
RULE = "one run = one pool of tests cut into batches that are delivered to simulated workers (reordered, lost and resent, duplicated, workers crashing), compared test by test and for the total gradient with one batch holding the whole pool; distinct = distinct event-log digest (bits of all delivered results), nontrivial = at least two batches were delivered"
TIME = "loading-history time integrated"
MEASURE = "distinct (problem, types in the pool, batch shapes, kinds of delivery) tuples"
REAL = ["pyoptmat.optimize", "pyoptmat.experiments.convert_results and formatters", "pyoptmat.models and material laws", "pyoptmat.ode", "pyoptmat.chunktime", "pyoptmat.utility interpolators"]
STUBS = ["workers and network (a delivery log decided by the seed)"]
ASSUMPTIONS = [
    "results of different groupings may differ by the solver tolerance, because all members of a batch share the number of Newton iterations",
    "gradients are not compared when a processed maximum is a tie within 1e-6, where the maximum is not differentiable",
]
CHUNK = 4


# ------------------------------------------------------------------- generation
def gen_log(rng, k, style=None):
    """batches of a partition of range(k) and a delivery log"""
    order = list(range(k))
    style = style or rng.choice(["perm", "split", "split", "split", "single", "whole"])
    if style != "whole" or rng.random() < 0.7:
        rng.shuffle(order)
    if style in ("perm", "whole"):
        batches = [order]
    elif style == "single":
        batches = [[x] for x in order]
    else:
        cuts = sorted(rng.sample(range(1, k), rng.randint(1, k - 1))) if k > 1 else []
        batches = [order[a:b] for a, b in zip([0] + cuts, cuts + [k])]
    nw = rng.choice([1, 2, 3])
    log = []
    for b in range(len(batches)):
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            log.append([b, rng.randrange(nw), rng.choice(["ok", "ok", "ok", "ok", "lost", "crash"])])
    rng.shuffle(log)
    return batches, nw, log


def generate(rng, tier, i):
    kind = rng.choice(["convert", "convert", "predict", "predict", "predict", "solve", "solve", "stat", "interp"])
    k = rng.choice([2, 3, 3, 4, 5, 6])
    n = rng.randint(5, 8)
    c = {"kind": kind, "k": k, "gseed": rng.randrange(10**6)}
    c["batches"], c["nw"], c["log"] = gen_log(rng, k)
    if kind == "convert":
        k = c["k"] = rng.choice([2, 3, 5, 8])
        c["batches"], c["nw"], c["log"] = gen_log(rng, k)
        one = rng.random() < 0.5
        typ = rng.choice(list(zoo.TYPES))
        n = rng.randint(5, 14)
        c["tests"] = [zoo.gen_test(rng, n, typ=typ if one else None) for _ in range(k)]
        for h in c["tests"]:
            layout(rng, h)
        c["scale"] = rng.choice([1.0, 1.0, 300.0, 1e-3, 1e20])
        c["sign"] = rng.choice([-1, 0, 0, 1])
    elif kind in ("predict", "stat"):
        one = rng.random() < 0.35
        typ = rng.choice(list(zoo.TYPES))
        c["cal"] = zoo.gen_calibration(rng, nb=k, n=n, types=[typ] * k if one else None, hier=kind == "stat", ctl=rng.choice([None, None, 0, 0]) if not one else None)
        if kind == "stat":
            c["weights"] = rng.random() < 0.5
            c["noise"] = rng.choice(["scalar", "type"])
            c["level"] = rng.choice(["single", "hier"])
        for h in c["cal"]["tests"]:
            layout(rng, h)
        c["accumulate"] = rng.random() < 0.4
        c["param_seed"] = rng.randrange(10**6)
    elif kind == "solve":
        w = zoo.gen_workload(rng, nb=k, n=n, light=True)
        w["model"] = p06.per_test(rng, w["model"], k)
        c["w"] = w
        c["accumulate"] = rng.random() < 0.4
    else:
        c["times"] = zoo.gen_times(rng, n, k)
        common = rng.choice(["", "", "end", "grid", "partial"])
        if common == "end":
            ends = c["times"][-1]
            c["times"] = [[float(f"{x / e * ends[0]:.9g}") for x, e in zip(r, ends)] for r in c["times"]]
            c["times"][-1] = [ends[0]] * k
        elif common == "grid":
            c["times"] = [[r[0]] * k for r in c["times"]]
        elif common == "partial":
            for r in c["times"]:
                r[1] = r[0]
        c["vals"] = [[zoo.rnd(rng, -2, 2) for _ in range(k)] for _ in range(n)]
        c["q"] = [[zoo.rnd(rng, 0.0, 1.0) for _ in range(k)] for _ in range(rng.choice([1, 3, 6]))]
    return c


def layout(rng, h):
    """other legal cycle layouts: features that start earlier or later, or do not occur"""
    n = len(h["times"])
    if rng.random() < 0.5:
        return
    t = h["type"]
    if t in ("relaxation", "creep"):
        k = rng.choice([1, 2, n // 2, n - 1, n, 0])
        h["cycles"] = [0] * k + [1] * (n - k)
    elif t in ("strain_cyclic", "stress_cyclic"):
        m = rng.choice([1, 2, n])
        h["cycles"] = [min(i * m // n, m - 1) for i in range(n)] if m < n else list(range(n))
        if rng.random() < 0.3:
            h["cycles"] = [2 * x for x in h["cycles"]]  # some cycles left out of the record
    elif t == "abstract_tensile":
        a = rng.randint(0, n - 1)
        b = rng.randint(a, n)
        h["cycles"] = [0] * a + [1] * (b - a) + [2] * (n - b)


# --------------------------------------------------------------------- problems
class Crash(RuntimeError):
    pass


class Problem:
    """evaluate(worker, tests) -> (per-test outputs, gradient contributions)"""

    gtol = 1e-3
    vtol = 1e-6

    def __init__(self, c):
        self.c = c
        self.grads = True

    def cot(self, idx, shape):
        rows = []
        for k in idx:
            g = torch.Generator().manual_seed(self.c["gseed"] + 7919 * k)
            rows.append(torch.rand(shape, generator=g) * 2 - 1)
        return torch.stack(rows, 1)


class Convert(Problem):
    vtol = 0.0
    gtol = 0.0

    def __init__(self, c):
        super().__init__(c)
        n = len(c["tests"][0]["times"])
        g = torch.Generator().manual_seed(c["gseed"])
        x = torch.rand((n, c["k"]), generator=g)
        x = (x if c["sign"] > 0 else -x if c["sign"] < 0 else 2 * x - 1) * c["scale"]
        self.x = x

    def run(self, worker, idx, crash):
        from pyoptmat import experiments

        data, cyc, typ, con = zoo.stack_tests([self.c["tests"][k] for k in idx])
        x = self.x[:, idx].clone().requires_grad_(True)
        y = experiments.convert_results(x, cyc, typ)
        (g,) = torch.autograd.grad(y, x, self.cot(idx, (y.shape[0],)))
        return y.detach(), {"x": (idx, g.t())}, {}


class Interp(Problem):
    vtol = 1e-12
    gtol = 1e-12

    def run(self, worker, idx, crash):
        from pyoptmat import utility

        c = self.c
        t = torch.tensor([[r[k] for k in idx] for r in c["times"]])
        v = torch.tensor([[r[k] for k in idx] for r in c["vals"]], requires_grad=True)
        q = torch.tensor([[r[k] for k in idx] for r in c["q"]]) * t[-1]
        y = utility.ArbitraryBatchTimeSeriesInterpolator(t, v)(q)
        z = torch.stack([utility.BatchTimeSeriesInterpolator(t, v)(r) for r in q])
        y = torch.cat([y, z])
        (g,) = torch.autograd.grad(y, v, self.cot(idx, (y.shape[0],)))
        return y.detach(), {"v": (idx, g.t())}, {}


class Solve(Problem):
    """ModelIntegrator with parameters that differ from test to test"""

    def __init__(self, c):
        super().__init__(c)
        w = c["w"]
        pb = zoo.PBuild("plain")
        zoo.make_model(w["model"], pb)
        names = p06.per_names(w["model"])
        self.per = [nm in names for nm in pb.names]
        self.names = pb.names
        self.leaves = [p.clone().requires_grad_(True) for p in pb.leaves]
        self.gtol = 5e-3 if w["ctl"] else (6e-4 if w["solver"]["adjoint"] else 3e-3)

    def run(self, worker, idx, crash):
        from pyoptmat import models

        w = self.c["w"]
        spec = p06.pick(w["model"], idx, self.c["k"])
        t, T, d, con = zoo.stack_history([w["hist"][k] for k in idx])
        ps = [p[idx] if s else p * 1.0 for p, s in zip(self.leaves, self.per)]
        m, _ = zoo.make_model(spec, zoo.PBuild("given", ps))
        kw = dict(w["solver"]["kw"], extra_params=ps)
        y = models.ModelIntegrator(m, use_adjoint=w["solver"]["adjoint"], **kw).solve_both(t, T, d, con)
        if crash:
            raise Crash()
        yd = y.detach()
        sc = yd.abs().amax(dim=0, keepdim=True) + 1e-3
        gs = torch.autograd.grad(y, self.leaves, self.cot(idx, (y.shape[0], y.shape[2])) / sc, allow_unused=True)
        return yd, {}, {n: (torch.zeros_like(p) if g is None else g, p.detach()) for n, g, p in zip(self.names, gs, self.leaves)}


class Predict(Problem):
    """DeterministicModel, one replica per worker or one model for all"""

    def __init__(self, c):
        super().__init__(c)
        from pyoptmat import optimize

        maker, names, ics = zoo.make_maker(c["cal"])
        self.crash = False

        def crashing(*a, **k):
            if self.crash:
                raise Crash()
            return maker(*a, **k)

        g = torch.Generator().manual_seed(c["param_seed"])
        ics = [p * (1 + 0.02 * (torch.rand(p.shape, generator=g) - 0.5)) for p in ics]
        nm = 1 if c["accumulate"] else c["nw"]
        self.models = [optimize.DeterministicModel(crashing, names, ics) for _ in range(nm)]
        strain = all(h["control"] == 0 for h in c["cal"]["tests"])
        self.gtol = 1e-3 if strain else 5e-3
        self.find_ties()

    def find_ties(self):
        """processed maxima that are not differentiable"""
        from pyoptmat import experiments

        c = self.c
        m = self.models[0]
        hs = c["cal"]["tests"]
        data, cyc, typ, con = zoo.stack_tests(hs)
        with torch.no_grad():
            raw = m.maker(*m.get_params()).solve_both(data[0], data[1], data[2], con)[:, :, 0]
        for j, h in enumerate(hs):
            col = raw[:, j]
            if h["type"] in ("strain_cyclic", "stress_cyclic"):
                groups = [col[cyc[:, j] == q] for q in sorted(set(h["cycles"]))]
            elif h["type"] == "abstract_tensile":
                groups = [col]
            else:
                continue
            for g in groups:
                if len(g) > 1:
                    top = torch.topk(g, 2).values
                    if top[0] - top[1] <= 1e-6 * (col.abs().max() + 1e-9):
                        self.grads = False

    def run(self, worker, idx, crash):
        m = self.models[worker % len(self.models)]
        data, cyc, typ, con = zoo.stack_tests([self.c["cal"]["tests"][k] for k in idx])
        self.crash = crash
        try:
            y = m(data, cyc, typ, con)
        finally:
            self.crash = False
        yd = y.detach()
        sc = yd.abs().amax(dim=0, keepdim=True) + 1e-3
        loss = (y * self.cot(idx, (y.shape[0],)) / sc).sum()
        ps = dict(m.named_parameters())
        if self.c["accumulate"]:
            old = {n: torch.zeros_like(p) if p.grad is None else p.grad.clone() for n, p in ps.items()}
            loss.backward()
            gs = {n: (torch.zeros_like(p) if p.grad is None else p.grad - old[n], p.detach()) for n, p in ps.items()}
        else:
            g = torch.autograd.grad(loss, list(ps.values()), allow_unused=True)
            gs = {n: (torch.zeros_like(p) if x is None else x, p.detach()) for (n, p), x in zip(ps.items(), g)}
        return yd, {}, gs


class Stat(Problem):
    """log likelihood of every test, population quantities and per-test values given"""

    grads = False
    vtol = 1e-4

    def __init__(self, c):
        super().__init__(c)
        self.grads = False
        import pyro
        from pyoptmat import optimize

        pyro.clear_param_store()
        cal = c["cal"]
        maker, names, ics = zoo.make_maker(cal)
        self.crash = False

        def crashing(*a, **k):
            if self.crash:
                raise Crash()
            return maker(*a, **k)

        self.names = names
        g = torch.Generator().manual_seed(c["param_seed"])
        self.single = [p * (1 + 0.05 * (torch.rand(p.shape, generator=g) - 0.5)) for p in ics]
        self.vals = [p.unsqueeze(0) * (1 + 0.05 * (torch.rand((c["k"],) + tuple(p.shape), generator=g) - 0.5)) for p in ics]
        eps = torch.tensor(5.0) if c["noise"] == "scalar" else torch.tensor([2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 8.0])
        sc = [0.1 * p.abs() + 1e-3 for p in ics]
        if c["level"] == "single":
            self.m = optimize.StatisticalModel(crashing, names, ics, sc, eps)
        else:
            w = {t: 1.0 + 0.5 * i for t, i in zoo.TYPE_CODE.items()} if c["weights"] else None
            self.m = optimize.HierarchicalStatisticalModel(crashing, names, ics, sc, [0.5 * s for s in sc], eps, weights=w)
        n = len(cal["tests"][0]["times"])
        self.res = torch.rand((n, c["k"]), generator=g) * 30

    def run(self, worker, idx, crash):
        import pyro
        from pyro import poutine

        c = self.c
        data = zoo.stack_tests([c["cal"]["tests"][k] for k in idx])
        given = {}
        for n, s, v in zip(self.names, self.single, self.vals):
            given[n] = s if c["level"] == "single" else v[idx]
        self.crash = crash
        try:
            pyro.set_rng_seed(5)
            tr = poutine.trace(poutine.condition(self.m, data=given)).get_trace(*data, self.res[:, idx])
        finally:
            self.crash = False
        tr.compute_log_prob()
        obs = tr.nodes["obs"]["log_prob"]
        if tuple(obs.shape) != (self.res.shape[0], len(idx)):
            raise Violation("likelihood-shape", f"{tuple(obs.shape)}")
        loc = obs_loc(tr)
        out = torch.cat([obs.detach(), loc.detach()])
        return out, {}, {}


def obs_loc(tr):
    f = tr.nodes["obs"]["fn"]
    while hasattr(f, "base_dist"):
        f = f.base_dist
    return torch.broadcast_tensors(f.loc, f.scale)[0]


PROBLEMS = {"convert": Convert, "interp": Interp, "solve": Solve, "predict": Predict, "stat": Stat}


# -------------------------------------------------------------------- execution
def compare(ctx, y, want, idx, tol, where):
    for j, k in enumerate(idx):
        a, b = y[:, j], want[:, k]
        if tol == 0.0:
            if not torch.equal(a, b):
                raise Violation("prediction-differs", f"{where}: test {k}")
        else:
            sc = b.abs().amax(dim=0, keepdim=True) + 1e-6
            e = ((a - b).abs() / sc).max().item()
            ctx.max_err = max(ctx.max_err, e / tol)
            if not e <= tol:
                raise Violation("prediction-differs", f"{where}: test {k} off by {e:.1e}")
        ctx.tensor("y", a, hold=f"{where} test {k}")
    ctx.probe("predictions", len(idx))


def execute(c, ctx):
    k = c["k"]
    where = f"{c['kind']} {c['batches']}"
    P = None
    with env.solver_signals() as sig:
        try:
            P = PROBLEMS[c["kind"]](c)
            want, per0, sh0 = P.run(0, list(range(k)), False)
        except Violation:
            raise
        except Exception as e:
            raise Violation("clean-raises", f"{where}: {type(e).__name__}: {str(e)[:160]}")
    if sig or not bool(torch.isfinite(want).all()):
        raise Skip("whole pool does not converge")
    ctx.tensor("whole", want, hold="prediction of the whole pool")
    want = want.clone()
    done = {}
    log = list(c["log"]) + [[b, 0, "ok"] for b in range(len(c["batches"])) if not any(x[0] == b and x[2] == "ok" for x in c["log"])]
    kinds = set()
    for b, w, out in log:
        idx = c["batches"][b]
        with env.solver_signals() as sig:
            try:
                y, per, sh = P.run(w, idx, out == "crash")
            except Crash:
                ctx.fault("worker-crash")
                kinds.add("crash")
                continue
            except Violation:
                raise
            except CaseTimeout:
                raise
            except Exception as e:
                raise Violation("clean-raises", f"{where} batch {idx}: {type(e).__name__}: {str(e)[:160]}")
        if sig:
            raise Skip("a batch does not converge")
        compare(ctx, y, want, idx, P.vtol, f"{where} batch {idx}")
        ctx.event("delivered", b, w, out)
        if out == "lost":
            ctx.fault("message-lost")
            kinds.add("lost")
            continue
        if b in done:
            ctx.fault("duplicate-delivery")
            kinds.add("dup")
            continue
        done[b] = (per, sh)
    if [b for b, _, o in log if o == "ok"] != sorted(b for b, _, o in log if o == "ok"):
        ctx.fault("reordered")
    types = tuple(sorted({h["type"] for h in c.get("tests", c.get("cal", {}).get("tests", []))}))
    ctx.reach((c["kind"], types, tuple(sorted(len(b) for b in c["batches"])), tuple(sorted(kinds))))
    ctx.nontrivial = len(c["batches"]) > 1
    if "w" in c:
        ctx.sim_time += sum(h["times"][-1] for h in c["w"]["hist"])
    if "cal" in c:
        ctx.sim_time += sum(h["times"][-1] for h in c["cal"]["tests"])
    # gradients: private ones test by test, shared ones summed
    for nm in per0:
        ref = per0[nm][1]
        for b, (per, _) in done.items():
            idx, g = per[nm]
            for j, t in enumerate(idx):
                if P.gtol == 0.0:
                    if not torch.equal(g[j], ref[t]):
                        raise Violation("gradient-differs", f"{where}: {nm} of test {t}")
                else:
                    ctx.close(g[j], ref[t], P.gtol, "gradient-differs", f"{where}: {nm} of test {t}")
        ctx.probe("gradients")
    if not sh0 or not P.grads:
        if sh0:
            ctx.probe("gradient-skipped-tie")
        return
    S = max((g * p).abs().max().item() for g, p in sh0.values())
    for nm, (g0, p) in sh0.items():
        g = sum(d[1][nm][0] for d in done.values())
        if not bool(torch.isfinite(g).all()):
            raise Violation("gradient-not-finite", f"{where}: {nm}")
        e = ((g - g0) * p).abs().max().item() / ((g0 * p).abs().max().item() + 1e-2 * S + 1e-4)
        ctx.max_err = max(ctx.max_err, e / P.gtol)
        if not e <= P.gtol:
            raise Violation("gradient-differs", f"{where}: total gradient of {nm} off by {e:.1e}")
        ctx.tensor("g", g)
    ctx.probe("gradients")


def shrink(c):
    for log in shrink_list(c["log"], 0):
        yield dict(c, log=log)
    if len(c["batches"]) > 1:
        # merge neighbouring batches
        for i in range(len(c["batches"]) - 1):
            b = c["batches"]
            yield dict(c, batches=b[:i] + [b[i] + b[i + 1]] + b[i + 2 :], log=[])
    if c["kind"] in ("predict", "stat", "convert") and c["k"] > 2:
        src = c["cal"]["tests"] if "cal" in c else c["tests"]
        for d in range(c["k"]):
            ren = {x: x - (x > d) for x in range(c["k"]) if x != d}
            bs = [[ren[x] for x in b if x != d] for b in c["batches"]]
            if any(not b for b in bs):
                continue
            ts = src[:d] + src[d + 1 :]
            q = dict(c, k=c["k"] - 1, batches=bs)
            if "cal" in c:
                q["cal"] = dict(c["cal"], tests=ts)
            else:
                q["tests"] = ts
            yield q
