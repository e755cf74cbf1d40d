"""P06: one corrupt test never corrupts the other tests in its batch."""
import copy

import torch

from sim import env, zoo
from sim.core import CaseTimeout, Skip, Violation, shrink_list

RUNS = {"quick": 420, "thorough": 18000}
RULE = "one run = one batch with one or two corrupt members, compared column by column (values and gradients) with the batch that never contained them; distinct = distinct event-log digest (bits of all healthy results and gradients), nontrivial = at least one healthy member was compared"
TIME = "loading-history time integrated"
MEASURE = "distinct (problem, control, kind of corruption, place of the corrupt member, outcome) tuples"
REAL = ["pyoptmat.ode", "pyoptmat.chunktime", "pyoptmat.models and material laws", "pyoptmat.utility interpolators", "pyoptmat.solvers", "pyoptmat.optimize", "pyoptmat.experiments.convert_results"]
STUBS = ["toy equations with per-test parameters that start to fail for one member at a chosen evaluation"]
ASSUMPTIONS = [
    "healthy results may differ by the solver tolerance from the batch without the corrupt member, because all members share the number of Newton iterations",
    "the loss whose shared-parameter gradient is checked does not contain the corrupt tests",
    "an exception is always an acceptable answer",
]
CHUNK = 4

CORR = ["nan-data", "nan-data", "inf-data", "huge-data", "nan-temp", "inf-temp", "nan-time", "inf-time", "dup-time", "swap-time", "zero-times", "const-times", "nan-all", "nan-param", "inf-param", "huge-param"]
FAIL = ["nan-R", "nan-R", "inf-R", "nan-J", "inf-J", "zero-J", "huge-R", "nan-both"]


def per_test(rng, spec, nb, prob=0.4):
    """turn some scalar constants into per-test values"""
    out = copy.deepcopy(spec)

    def walk(s):
        if isinstance(s, dict):
            if s.get("t") == "const" and isinstance(s["v"], float):
                if rng.random() < prob:
                    s["v"] = [float(f"{s['v'] * rng.uniform(0.9, 1.1):.8g}") for _ in range(nb)]
                return
            for k, x in s.items():
                if k != "R" or s.get("k") != "const":
                    walk(x)
        elif isinstance(s, list):
            for x in s:
                walk(x)

    walk(out["flow"])
    if out["E"]["t"] == "const" and rng.random() < prob:
        walk(out["E"])
    return out


def pick(spec, keep, nb):
    """the model for a subset of the tests"""
    out = copy.deepcopy(spec)

    def walk(s):
        if isinstance(s, dict):
            if s.get("t") == "const" and isinstance(s["v"], list) and s.get("t") == "const":
                s["v"] = [s["v"][k] for k in keep]
                return
            for x in s.values():
                walk(x)
        elif isinstance(s, list):
            for x in s:
                walk(x)

    walk(out)
    return out


def generate(rng, tier, i):
    kind = rng.choice(["toy", "toy", "model", "model", "model", "calib", "hier", "interp", "convert", "newton"])
    nb = rng.choice([2, 2, 3, 4, 5])
    nbad = 2 if nb > 2 and rng.random() < 0.25 else 1
    c = {"kind": kind, "nb": nb, "bad": sorted(rng.sample(range(nb), nbad)), "gseed": rng.randrange(10**6)}
    c["what"] = []
    n = rng.randint(5, 8)
    if kind in ("toy", "newton"):
        for _ in c["bad"]:
            c["what"].append([rng.choice(FAIL), rng.choice([0, 1, 2, rng.randrange(30)]), rng.choice([1, 3, 10**6, 10**6])])
    else:
        for _ in c["bad"]:
            c["what"].append([rng.choice(CORR), rng.randrange(n), rng.random() < 0.3])
    if kind == "toy":
        spec = zoo.gen_toy(rng)
        spec["a"] = [[zoo.rnd(rng, 0.5, 2.0) for _ in range(spec["size"])] for _ in range(nb)]
        spec["b"] = [[zoo.rnd(rng, 0.1, 0.8) for _ in range(spec["size"])] for _ in range(nb)]
        n = rng.randint(3, 9)
        s = zoo.gen_solver(rng, n)
        if not s["adjoint"] and s["kw"]["linear_solve_method"] == "direct":
            s["kw"]["direct_solve_method"] = "thomas"
        s["kw"].update(rtol=1e-12, atol=1e-12, miter=40)
        c.update(ode=spec, times=zoo.gen_times(rng, n, nb), y0=[[zoo.rnd(rng, 0.05, 0.9) for _ in range(spec["size"])] for _ in range(nb)], sol=s)
    elif kind == "model":
        w = zoo.gen_workload(rng, nb=nb, n=n, light=True)
        w["model"] = per_test(rng, w["model"], nb)
        c["w"] = w
        c["entry"] = rng.choice(["both", "own"])
        c["part"] = rng.choice(["val", "grad", "grad"])
    elif kind in ("calib", "hier"):
        c["cal"] = zoo.gen_calibration(rng, nb=nb, n=n, hier=kind == "hier", flow="perfect" if kind == "hier" else None)
        c["part"] = "grad"
    elif kind == "interp":
        c["times"] = zoo.gen_times(rng, n, nb)
        c["vals"] = [[zoo.rnd(rng, -2, 2) for _ in range(nb)] for _ in range(n)]
        c["q"] = [[zoo.rnd(rng, 0.0, 1.0) for _ in range(nb)] for _ in range(rng.choice([1, 4, 7]))]
        c["onq"] = rng.random() < 0.4  # also ask at the recorded times
        c["badq"] = rng.choice(["none", "nan", "far"])
    elif kind == "convert":
        c["tests"] = [zoo.gen_test(rng, n) for _ in range(nb)]
    else:
        c.update(size=rng.choice([1, 2, 3]), which=rng.choice(["nr", "nrbt", "chunk", "nr-diag"]), hard=rng.choice([0.0, 0.5, 1.0]))
    return c


# ------------------------------------------------------------------- corruption
def corrupt(h, what):
    """one test (times, temps, data) with one kind of damage"""
    kind, k, rest = what
    h = copy.deepcopy(h)
    n = len(h["times"])
    k = k % n
    rows = range(k, n) if rest else [k]
    bad = {"nan": float("nan"), "inf": float("inf"), "huge": 1e30}[kind.split("-")[0]] if kind.split("-")[0] in ("nan", "inf", "huge") else None
    if bad is not None:
        what = kind.split("-")[1]
        for key in {"data": ["data"], "temp": ["temps"], "time": ["times"], "all": ["data", "temps", "times"]}.get(what, []):
            for r in rows:
                h[key][r] = bad
    elif kind == "dup-time":
        k = max(k, 1)
        h["times"][k] = h["times"][k - 1]
    elif kind == "swap-time":
        k = max(k, 1)
        h["times"][k], h["times"][k - 1] = h["times"][k - 1], h["times"][k]
    elif kind == "zero-times":
        h["times"] = [0.0] * n
    elif kind == "const-times":
        h["times"] = [5.0] * n
    return h


def corrupt_params(pb, c, keep):
    """per-test parameter values of corrupt members"""
    for b, w in zip(c["bad"], c["what"]):
        if not w[0].endswith("-param") or b not in keep:
            continue
        j = keep.index(b)
        v = {"nan": float("nan"), "inf": float("inf"), "huge": 1e25}[w[0].split("-")[0]]
        vec = [p for p in pb.leaves if p.dim() == 1 and p.shape[0] == len(keep) and getattr(p, "_per_test", False)]
        if vec:
            with torch.no_grad():
                vec[w[1] % len(vec)][j] = v


class FailODE(zoo.ToyODE):
    """per-test parameters; some members fail from a given evaluation on"""

    def __init__(self, spec, params, fails):
        super().__init__(spec, params)
        self.fails = fails
        self.n = 0
        self.fired = 0

    def forward(self, t, y):
        f, J = super().forward(t, y)
        k = self.n
        self.n += 1
        for b, (what, at, dur) in self.fails:
            if at <= k < at + dur:
                self.fired += 1
                f, J = damage(f, J, b, what)
        return f, J


def damage(f, J, b, what):
    v = {"nan": float("nan"), "inf": float("inf"), "huge": 1e30, "zero": 0.0}[what.split("-")[0]]
    part = what.split("-")[1]
    if part in ("R", "both"):
        f = f.clone()
        f[..., b, :] = v
    if part in ("J", "both"):
        J = J.clone()
        J[..., b, :, :] = v
    return f, J


def cotangents(y, healthy, seed, dim):
    """normalised per column, zero for corrupt members; a member's cotangent only depends on its index"""
    g = torch.Generator().manual_seed(seed)
    return torch.rand(y.shape, generator=g) * 2 - 1


# -------------------------------------------------------------------- execution
def toy(c, keep, healthy, clean):
    from pyoptmat import ode

    s = c["ode"]
    a = torch.tensor([s["a"][k] for k in keep], requires_grad=True)
    b = torch.tensor([s["b"][k] for k in keep], requires_grad=True)
    sh = torch.ones(s["size"], requires_grad=True)  # shared by all tests
    fails = [] if clean else [(keep.index(m), w) for m, w in zip(c["bad"], c["what"]) if m in keep]
    f = FailODE(s, [a * sh, b], fails)
    # parameters that are not leaves of the module are handed over explicitly
    A = a * sh
    f.a = A
    y0 = torch.tensor([c["y0"][k] for k in keep], requires_grad=True)
    t = torch.tensor([[r[k] for k in keep] for r in c["times"]])
    kw = dict(c["sol"]["kw"], extra_params=[A, b])
    fn = ode.odeint_adjoint if c["sol"]["adjoint"] else ode.odeint
    y = fn(f, y0, t, **kw)
    return y, {"a": a, "b": b, "y0": y0}, {"shared": sh}, f


def model(c, keep, healthy, clean):
    from pyoptmat import models

    w = c["w"]
    spec = pick(w["model"], keep, c["nb"])
    pb0 = zoo.PBuild("plain")
    zoo.make_model(spec, pb0)
    leaves = []
    per, shared = {}, {}
    full = zoo.PBuild("plain")
    zoo.make_model(w["model"], full)
    for nm, p, q in zip(pb0.names, pb0.leaves, full.leaves):
        is_per = list_valued(w["model"], nm, q, c["nb"])
        x = p.clone()
        x._per_test = is_per
        leaves.append(x)
        (per if is_per else shared)[nm] = x
    holder = zoo.PBuild("plain")
    holder.leaves = leaves
    if not clean:
        corrupt_params(holder, c, keep)
    for x in leaves:
        x.requires_grad_(True)
    hs = [w["hist"][k] for k in keep]
    if not clean:
        hs = [corrupt(h, dict(zip(c["bad"], c["what"]))[k]) if k in c["bad"] else h for h, k in zip(hs, keep)]
    t, T, d, con = zoo.stack_history(hs)
    ps = [p * 1.0 for p in leaves]
    m, _ = zoo.make_model(spec, zoo.PBuild("given", ps))
    kw = dict(w["solver"]["kw"], extra_params=ps)
    I = models.ModelIntegrator(m, use_adjoint=w["solver"]["adjoint"], **kw)
    # the entry point must be the same with and without the corrupt test
    allcon = {h["control"] for h in w["hist"]}
    if c["entry"] == "own" and allcon == {0}:
        y = I.solve_strain(t, d, T)
    elif c["entry"] == "own" and allcon == {1}:
        y = I.solve_stress(t, d, T)
    else:
        y = I.solve_both(t, T, d, con)
    return y, per, shared, None


def list_valued(spec, nm, q, nb):
    """is this leaf one value per test (a list of the number of tests)?"""
    return q.dim() == 1 and q.shape[0] == nb and nm in per_names(spec)


def per_names(spec):
    """names of leaves that hold one value per test"""
    marked = copy.deepcopy(spec)
    out = []

    class B(zoo.PBuild):
        def leaf(self, name, v, trainable=True):
            return super().leaf(name, v, trainable)

    old = zoo.make_tp

    def spy(s, pb, name):
        if s["t"] == "const" and isinstance(s["v"], list):
            out.append(name)
        return old(s, pb, name)

    zoo.make_tp = spy
    try:
        zoo.make_model(marked, B("plain"))
    finally:
        zoo.make_tp = old
    return out


def calib(c, keep, healthy, clean):
    from pyoptmat import optimize

    cal = c["cal"]
    maker, names, ics = zoo.make_maker(cal)
    m = optimize.DeterministicModel(maker, names, ics)
    hs = [cal["tests"][k] for k in keep]
    if not clean:
        hs = [corrupt(h, dict(zip(c["bad"], c["what"]))[k]) if k in c["bad"] else h for h, k in zip(hs, keep)]
    y = m(*zoo.stack_tests(hs))
    return y.unsqueeze(-1), {}, dict(m.named_parameters()), None


def hier(c, keep, healthy, clean):
    """per-test guide parameters of a hierarchical model"""
    import pyro
    from pyro.infer import Trace_ELBO
    from pyoptmat import optimize

    cal = c["cal"]
    pyro.clear_param_store()
    maker, names, ics = zoo.make_maker(cal)
    m = optimize.HierarchicalStatisticalModel(
        maker, names, ics, [0.1 * p.abs() + 1e-3 for p in ics], [0.05 * p.abs() + 1e-3 for p in ics], torch.tensor(5.0)
    )
    guide = m.make_guide()
    hs = [cal["tests"][k] for k in keep]
    if not clean:
        hs = [corrupt(h, dict(zip(c["bad"], c["what"]))[k]) if k in c["bad"] else h for h, k in zip(hs, keep)]
    data = zoo.stack_tests(hs)
    g = torch.Generator().manual_seed(c["gseed"])
    res = (torch.rand((data[1].shape[0], c["nb"]), generator=g) * 50)[:, keep]
    # a first call creates the parameters
    guide(*data)
    loss = Trace_ELBO().differentiable_loss(m, guide, *data, res)
    store = pyro.get_param_store()
    per = {n + "_param": store._params[n + "_param"] for n in names}
    return loss, per, {}, None


def compare_values(ctx, y, z, keep, healthy, tol, where):
    for j, k in enumerate(healthy):
        a, b = y[:, keep.index(k)].detach(), z[:, j].detach()
        if not bool(torch.isfinite(a).all()):
            raise Violation("healthy-not-finite", f"{where}: test {k}")
        sc = b.abs().amax(dim=0, keepdim=True) + 1e-6
        e = ((a - b).abs() / sc).max().item()
        ctx.max_err = max(ctx.max_err, e / tol)
        if not e <= tol:
            raise Violation("healthy-differs", f"{where}: test {k} off by {e:.1e}")
        ctx.tensor("y", a, hold=where)
        ctx.probe("healthy-columns")
    ctx.nontrivial = bool(healthy)


def execute(c, ctx):
    nb = c["nb"]
    keep = list(range(nb))
    healthy = [k for k in keep if k not in c["bad"]]
    where = f"{c['kind']} nb={nb} corrupt {list(zip(c['bad'], c['what']))}"
    if c["kind"] == "interp":
        return interp(c, ctx, healthy, where)
    if c["kind"] == "convert":
        return convert(c, ctx, healthy, where)
    if c["kind"] == "newton":
        return newton(c, ctx, healthy, where)
    fn = {"toy": toy, "model": model, "calib": calib, "hier": hier}[c["kind"]]
    with env.solver_signals() as sig:
        try:
            z, zper, zshared, _ = fn(c, healthy, healthy, True)
        except Exception as e:
            raise Violation("clean-raises", f"{where}: {type(e).__name__}: {str(e)[:160]}")
    if sig or not bool(torch.isfinite(z).all()):
        raise Skip("not converged without the corrupt test")
    what = sorted({w[0] for w in c["what"]})
    import warnings

    ctrl = {"model": lambda: str(c["w"]["ctl"]), "calib": lambda: "mixed"}.get(c["kind"], lambda: "")()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            y, per, shared, f = fn(c, keep, healthy, False)
            val = y.detach()
    except CaseTimeout:
        raise
    except Exception as e:
        ctx.probe("raised")
        ctx.event("raised", type(e).__name__)
        for w in what:
            ctx.fault(w)
            ctx.reach((c["kind"], ctrl, w, "raised"))
        ctx.nontrivial = False
        return
    for w in what:
        ctx.fault(w)
    tol = 1e-7 if c["kind"] == "toy" else 1e-5
    if c["kind"] != "hier":
        compare_values(ctx, y, z, keep, healthy, tol, where)
    for w in what:
        for b in c["bad"]:
            ctx.reach((c["kind"], ctrl, w, "first" if b == 0 else "last" if b == nb - 1 else "middle"))
    if "w" in c:
        ctx.sim_time += sum(c["w"]["hist"][k]["times"][-1] for k in healthy)
    if c.get("part") == "val":
        return
    # gradients
    if c["kind"] == "hier":
        gy = gz = None
        y, z = y, z
    else:
        g = torch.Generator().manual_seed(c["gseed"])
        full = torch.rand(y.shape, generator=g) * 2 - 1
        gz = full[:, healthy] / (z.detach().abs().amax(dim=0, keepdim=True) + 1e-3)
        gy = torch.zeros_like(full)
        gy[:, healthy] = gz
    zg = torch.autograd.grad(z, list(zper.values()) + list(zshared.values()), gz, allow_unused=True)
    try:
        yg = torch.autograd.grad(y, list(per.values()) + list(shared.values()), gy, allow_unused=True)
    except CaseTimeout:
        raise
    except Exception as e:
        ctx.probe("backward-raised")
        ctx.event("backward-raised", type(e).__name__)
        return
    if c["kind"] == "toy":
        adj = c["sol"]["adjoint"]
        gtol = 1e-6 if adj else 1e-4
    elif c["kind"] == "model":
        gtol = 5e-3 if c["w"]["ctl"] else (6e-4 if c["w"]["solver"]["adjoint"] else 3e-3)
    else:
        gtol = 5e-3
    pv = list(zper.values()) + list(zshared.values())
    S = 1e-30
    for p, g0 in zip(pv, zg):
        if g0 is not None:
            S = max(S, (g0 * p).abs().max().item())
    n = len(per)
    names = list(per) + list(shared)
    for i, (nm, a, b, p) in enumerate(zip(names, yg, zg, pv)):
        if a is None and b is None:
            continue
        p = p.detach()
        b = torch.zeros_like(p) if b is None else b
        if i < n:
            a = torch.zeros((nb,) + tuple(b.shape[1:])) if a is None else a[healthy]
            if not bool(torch.isfinite(a).all()):
                raise Violation("healthy-gradient-not-finite", f"{where}: {nm}")
        else:
            a = torch.zeros_like(b) if a is None else a
            if not bool(torch.isfinite(a).all()):
                # visibly wrong is allowed for what all tests share
                ctx.probe("shared-gradient-not-finite")
                continue
            ctx.probe("shared-gradient-correct")
        e = ((a - b) * p).abs().max().item() / ((b * p).abs().max().item() + 1e-2 * S + 1e-4)
        ctx.max_err = max(ctx.max_err, e / gtol)
        if not e <= gtol:
            raise Violation("healthy-gradient-differs" if i < n else "shared-gradient-differs", f"{where}: {nm} off by {e:.1e}")
        ctx.tensor("g", a)
    ctx.probe("gradients")
    ctx.nontrivial = True


def interp(c, ctx, healthy, where):
    from pyoptmat import utility

    def tensors(keep, clean):
        cols = []
        for k in keep:
            h = {"times": [r[k] for r in c["times"]], "data": [r[k] for r in c["vals"]], "temps": [0.0] * len(c["times"])}
            if not clean and k in c["bad"]:
                h = corrupt(h, dict(zip(c["bad"], c["what"]))[k])
            cols.append(h)
        t = torch.tensor([h["times"] for h in cols]).t().contiguous()
        v = torch.tensor([h["data"] for h in cols]).t().contiguous()
        end = torch.tensor([r[-1] if False else c["times"][-1][k] for r, k in zip(cols, keep)])
        q = torch.tensor([[r[k] for k in keep] for r in c["q"]]) * end
        if c["onq"]:
            q = torch.cat([q, torch.tensor([[r[k] for k in keep] for r in c["times"]])])
        if not clean:
            for k in c["bad"]:
                j = keep.index(k)
                if c["badq"] == "nan":
                    q[:, j] = float("nan")
                elif c["badq"] == "far":
                    q[:, j] = 1e6
        return t, v, q

    tz, vz, qz = tensors(healthy, True)
    want = [utility.ArbitraryBatchTimeSeriesInterpolator(tz, vz)(qz)]
    for row in qz:
        want.append(utility.BatchTimeSeriesInterpolator(tz, vz)(row).unsqueeze(0))
    t, v, q = tensors(list(range(c["nb"])), False)
    for w in c["what"]:
        ctx.fault(w[0])
    got = []
    for mk in [lambda: utility.ArbitraryBatchTimeSeriesInterpolator(t, v)(q)] + [lambda r=r: utility.BatchTimeSeriesInterpolator(t, v)(r).unsqueeze(0) for r in q]:
        try:
            got.append(mk())
        except Exception as e:
            ctx.probe("raised")
            ctx.event("raised", type(e).__name__)
            got.append(None)
    for x, y in zip(got, want):
        if x is None:
            continue
        compare_values(ctx, x.unsqueeze(-1), y.unsqueeze(-1), list(range(c["nb"])), healthy, 1e-12, where + f" query {c['badq']}")
    for w in c["what"]:
        ctx.reach(("interp", "", w[0], c["badq"]))


def convert(c, ctx, healthy, where):
    from pyoptmat import experiments

    data, cyc, typ, con = zoo.stack_tests(c["tests"])
    x = torch.rand(cyc.shape, generator=torch.Generator().manual_seed(c["gseed"])) * 100
    bad = x.clone()
    for k, w in zip(c["bad"], c["what"]):
        v = {"nan": float("nan"), "inf": float("inf")}.get(w[0].split("-")[0], 1e30)
        if w[2]:
            bad[w[1] % x.shape[0] :, k] = v
        else:
            bad[w[1] % x.shape[0], k] = v
        ctx.fault(w[0].split("-")[0] + "-prediction")
    xz = x[:, healthy].clone().requires_grad_(True)
    bad.requires_grad_(True)
    z = experiments.convert_results(xz, cyc[:, healthy], typ[healthy])
    y = experiments.convert_results(bad, cyc, typ)
    compare_values(ctx, y.unsqueeze(-1), z.unsqueeze(-1), list(range(c["nb"])), healthy, 1e-13, where)
    g = torch.rand(y.shape, generator=torch.Generator().manual_seed(c["gseed"] + 1))
    (gy,) = torch.autograd.grad(y, bad, g)
    (gz,) = torch.autograd.grad(z, xz, g[:, healthy])
    if not torch.equal(gy[:, healthy], gz):
        raise Violation("healthy-gradient-differs", where)
    for t in typ.tolist():
        ctx.reach(("convert", t))


def newton(c, ctx, healthy, where):
    from pyoptmat import chunktime, solvers

    n, nb = c["size"], c["nb"]
    g = torch.Generator().manual_seed(c["seed"])
    A = 0.3 * torch.rand(nb, n, n, generator=g) + torch.diag_embed(2 + torch.rand(nb, n, generator=g))
    if c["which"] == "nr-diag":
        A = torch.diag_embed(A.diagonal(dim1=-2, dim2=-1))
    b = torch.rand(nb, n, generator=g) + 0.5

    def solve(keep, clean):
        st = {"k": 0}

        def RJ(x):
            R = (A[keep] @ x.unsqueeze(-1)).squeeze(-1) + c["hard"] * x**3 - b[keep]
            J = A[keep] + torch.diag_embed(3 * c["hard"] * x**2)
            k = st["k"]
            st["k"] += 1
            if not clean:
                for m, (what, at, dur) in zip(c["bad"], c["what"]):
                    if at % 6 <= k < at % 6 + dur:
                        R, J = damage(R, J, keep.index(m), what)
            if c["which"] == "chunk":
                J = chunktime.BidiagonalForwardOperator(J.unsqueeze(0), torch.zeros(0, len(keep), n, n))
            return R, J

        x0 = torch.full((len(keep), n), 0.1)
        kw = dict(rtol=1e-12, atol=1e-11, miter=40)
        if c["which"] == "chunk":
            return chunktime.newton_raphson_chunk(RJ, x0, chunktime.ChunkTimeOperatorSolverContext("direct"), **kw)
        if c["which"] == "nrbt":
            return solvers.newton_raphson_bt(RJ, x0, **kw)[0]
        return solvers.newton_raphson(RJ, x0, **(dict(kw, linsolver="diag") if c["which"] == "nr-diag" else kw))[0]

    with env.solver_signals() as sig:
        z = solve(healthy, True)
    if sig:
        raise Skip("not converged without the corrupt test")
    for w in c["what"]:
        ctx.fault(w[0])
    try:
        with env.solver_signals() as sig:
            y = solve(list(range(nb)), False)
    except Exception as e:
        ctx.probe("raised")
        ctx.event("raised", type(e).__name__)
        return
    ctx.reach((c["which"], tuple(w[0] for w in c["what"]), bool(sig)))
    compare_values(ctx, y.unsqueeze(0), z.unsqueeze(0), list(range(nb)), healthy, 1e-8, where + " " + c["which"])


def shrink(c):
    if len(c["bad"]) > 1:
        for i in range(2):
            yield dict(c, bad=c["bad"][: i] + c["bad"][i + 1 :], what=c["what"][:i] + c["what"][i + 1 :])
    for i, w in enumerate(c["what"]):
        if w[2] and isinstance(w[2], bool):
            yield dict(c, what=c["what"][:i] + [[w[0], w[1], False]] + c["what"][i + 1 :])
