"""P09: calibration, inference and solves never alter the caller's own data."""
import torch

from sim import env, zoo
from sim.core import CaseTimeout, Violation, shrink_list

RUNS = {"quick": 600, "thorough": 16000}
RULE = "one run = one history of constructions, training and inference steps, predictions, solves and caller edits over one set of caller tensors, all compared bit for bit after every event; distinct = distinct event-log digest, nontrivial = at least two events that computed something"
TIME = "number of events is the only clock"
MEASURE = "distinct (storage form of the caller's tensors, previous event, event) tuples"
REAL = ["pyoptmat.optimize", "pyoptmat.experiments", "pyoptmat.models", "pyoptmat.ode", "pyoptmat.chunktime", "pyoptmat.solvers", "pyoptmat.utility", "torch.optim, pyro SVI"]
STUBS = ["simulated caller who owns all tensors and edits them between events"]
ASSUMPTIONS = ["the order of events is the schedule; everything runs in one thread", "tensors of a prior stay the caller's: the model may refer to them, but not change them"]
CHUNK = 4

EVENTS = (
    ["new-det", "new-det", "train-det", "train-det", "train-det", "zero-det", "predict-det"]
    + ["new-hier", "svi", "svi", "guide", "predict-hier"]
    + ["new-stat", "predict-stat", "svi-stat"]
    + ["integrate", "integrate", "convert", "newton", "newton", "operator", "operator", "linear", "interp", "scale", "load", "make"]
    + ["edit", "edit", "fail"]
)


def generate(rng, tier, i):
    n = rng.randint(4, 6)
    cal = zoo.gen_calibration(rng, nb=rng.choice([1, 2, 3]), n=n, hier=True)
    cal["solver"]["kw"].update(rtol=1e-6, atol=1e-8, miter=15)
    c = {"cal": cal, "form": rng.choice(["plain", "plain", "leaf", "parameter", "view", "numpy", "shared"]), "seed": rng.randrange(10**6)}
    c["w"] = zoo.gen_workload(rng, nb=rng.choice([1, 2]), n=5, light=True)
    c["w"]["solver"]["kw"].update(rtol=1e-6, atol=1e-8, miter=15)
    c["tnoise"], c["inoise"], c["weights"] = rng.random() < 0.5, rng.random() < 0.5, rng.random() < 0.5
    c["bounded"] = rng.random() < 0.4
    evs = [[rng.choice(EVENTS), rng.randrange(1000)] for _ in range(rng.randint(4, 11))]
    need = [{"new-det": 1, "train-det": "new-det", "zero-det": "new-det", "predict-det": "new-det", "svi": "new-hier", "guide": "new-hier", "predict-hier": "new-hier", "predict-stat": "new-stat", "svi-stat": "new-stat"}.get(e[0]) for e in evs]
    for e in sorted({x for x in need if isinstance(x, str)}):
        evs.insert(0, [e, rng.randrange(1000)])
    c["events"] = evs
    # values the library may find inconvenient and the caller still owns
    c["odd"] = []
    if rng.random() < 0.5:
        for _ in range(rng.randint(1, 4)):
            c["odd"].append([rng.choice(["scale", "scale", "sscale", "sscale", "noise", "bounds", "x", "rhs", "x0", "b", "ic"]), rng.randrange(1000), rng.choice(["tiny", "tiny", "small", "huge", "same", "negative"])])
    return c


def strange(t, k, kind):
    """an inconvenient but legal value in one entry (or all) of a tensor of the caller's"""
    v = t.detach()
    with torch.no_grad():
        if v.dim() and k % 3:
            v = v.view(-1)[k % v.numel()]
        if kind == "tiny":
            v.mul_(0).add_([1e-14, 1e-300, 1e-9][k % 3])
        elif kind == "small":
            v.mul_(1e-6)
        elif kind == "huge":
            v.mul_(1e12)
        elif kind == "negative":
            v.neg_()
        elif kind == "same":
            v.copy_(torch.full_like(v, float(v.reshape(-1)[0])))


class Caller:
    """owns every tensor that goes into the library"""

    def __init__(self, c):
        import pyro

        self.c = c
        g = self.g = torch.Generator().manual_seed(c["seed"])
        pyro.clear_param_store()
        self.maker, self.names, ics = zoo.make_maker(c["cal"])
        form = c["form"]
        base = [p.detach().clone() for p in ics]
        sc = [0.02 * p.abs() + 1e-4 for p in base]
        ss = [0.01 * p.abs() + 1e-4 for p in base]
        self.own = {}
        self.ics = self.put("ic", base, form)
        pf = form if form in ("plain", "view", "numpy", "shared") else "plain"
        self.locs = self.ics if form == "shared" else self.put("loc", [p.detach().clone() for p in base], pf)
        self.scales = self.put("scale", sc, pf)
        self.sscales = self.scales if form == "shared" else self.put("sscale", ss, pf)
        self.eps = self.keep("noise", torch.full((7,), 2.0) if c["tnoise"] else torch.tensor(2.0))
        data = zoo.stack_tests(c["cal"]["tests"])
        self.data = [self.keep(n, t) for n, t in zip(["data", "cycles", "types", "control"], data)]
        self.res = self.keep("results", torch.rand(data[1].shape, generator=g) * 50)
        self.weights = {t: 1.0 + 0.5 * i for t, i in zoo.TYPE_CODE.items()} if c["weights"] else None
        self.odd = [o for o in c.get("odd", []) if o[0] in ("scale", "sscale", "noise", "ic")]
        for what, k, kind in self.odd:
            t = self.eps if what == "noise" else {"scale": self.scales, "sscale": self.sscales, "ic": self.ics}[what][k % len(self.ics)]
            strange(t, k, kind if kind not in ("huge", "negative") and what != "ic" else "small" if what != "ic" else "same")
        # solver problems
        nb, n = 2, 3
        A = 0.3 * torch.rand(4, nb, n, n, generator=g) + torch.diag_embed(2 + torch.rand(4, nb, n, generator=g))
        self.A = self.keep("A", A)
        self.B = self.keep("B", 0.2 * torch.rand(3, nb, n, n, generator=g))
        self.b = self.keep("b", torch.rand(nb, 4 * n, generator=g) + 0.5)
        self.x0 = self.keep("x0", 0.1 * torch.rand(nb, n, generator=g))
        self.rhs = self.keep("rhs", torch.rand(nb, n, generator=g) + 0.5)
        t, T, d, con = zoo.stack_history(c["w"]["hist"])
        self.hist = [self.keep(n, x) for n, x in zip(["times", "temps", "loads", "controls"], (t, T, d, con))]
        self.bounds = [self.keep("lower", torch.tensor(1.0)), self.keep("upper", torch.tensor(3.0)), self.keep("min", torch.tensor(1.5))]
        self.x = self.keep("x", torch.rand(5, generator=g) * 2 - 0.5)
        for what, k, kind in c.get("odd", []):
            if what == "bounds" and kind in ("same", "huge"):
                t = self.bounds[k % 3]
                t.fill_({0: 1.0, 1: 3.0, 2: 3.0}[k % 3] if kind == "same" else {0: -1e6, 1: 1e6, 2: 2.0}[k % 3])
            elif what in ("x", "rhs", "x0", "b"):
                strange({"x": self.x, "rhs": self.rhs, "x0": self.x0, "b": self.b}[what], k, "small" if kind == "huge" and what != "x" else kind)
        self.watch()
        self.lists = repr((self.names, [id(x) for x in self.ics], [id(x) for x in self.locs], sorted(self.weights.items()) if self.weights else None))

    def keep(self, n, t):
        self.own[n] = t
        return t

    def put(self, what, ts, form):
        if form in ("leaf", "parameter"):
            ts = [torch.nn.Parameter(t) if form == "parameter" else t.requires_grad_(True) for t in ts]
        elif form == "view":
            # slices of one big tensor of the caller's
            big = torch.full((sum(t.numel() for t in ts) + 2,), -3.5)
            out, k = [], 1
            for t in ts:
                v = big[k : k + t.numel()].view(t.shape)
                v.copy_(t)
                out.append(v)
                k += t.numel()
            self.own[what + " storage"] = big
            ts = out
        elif form == "numpy":
            self.arrays = [t.numpy().copy() for t in ts]
            ts = [torch.from_numpy(a) for a in self.arrays]
        for k, t in enumerate(ts):
            self.own[f"{what} {k}"] = t
        return ts

    def watch(self):
        self.w = env.Watch(list(self.own.items()))

    def check(self, where):
        self.w.check("caller-data-changed", where)
        now = repr((self.names, [id(x) for x in self.ics], [id(x) for x in self.locs], sorted(self.weights.items()) if self.weights else None))
        if now != self.lists:
            raise Violation("caller-lists-changed", where)


class Sim:
    def __init__(self, c):
        self.c = c
        self.u = Caller(c)
        self.det, self.hier, self.stat = [], [], []

    # -- everything trained so far; must only move through its own training
    def state(self):
        import pyro

        s = {}
        for k, (m, _) in enumerate(self.det):
            for n, p in m.named_parameters():
                s[f"det{k}.{n}"] = env.bits(p)
        st = pyro.get_param_store()
        for n in sorted(st._params):
            s["store." + n] = env.bits(st._params[n])
        return s

    def ev(self, name, k):
        return getattr(self, name.replace("-", "_"))(k)

    def new_det(self, k):
        from pyoptmat import optimize

        m = optimize.DeterministicModel(self.u.maker, self.u.names, self.u.ics)
        opt = [lambda p: torch.optim.SGD(p, lr=1e-6), lambda p: torch.optim.Adam(p, lr=1e-3), lambda p: torch.optim.LBFGS(p, lr=1e-9, max_iter=1)][k % 3](m.parameters())
        self.det.append((m, opt))
        if not any(p.requires_grad for p in m.parameters()):
            raise Violation("not-trainable", "parameters of a new model")
        return [p.detach() for p in m.parameters()]

    def train_det(self, k):
        if not self.det:
            return None
        m, opt = self.det[k % len(self.det)]

        def closure():
            opt.zero_grad(set_to_none=bool(k % 2))
            v = ((m(*self.u.data) - self.u.res) ** 2).mean()
            v.backward()
            return v

        opt.step(closure)
        if k % 5 == 0:
            with torch.no_grad():
                for p in m.parameters():
                    p.mul_(1.0001)
        return [p.detach() for p in m.parameters()]

    def zero_det(self, k):
        if self.det:
            self.det[k % len(self.det)][1].zero_grad()

    def predict_det(self, k):
        if self.det:
            return self.det[k % len(self.det)][0](*self.u.data)

    def new_hier(self, k):
        from pyro import optim
        from pyro.infer import SVI, Trace_ELBO
        from pyoptmat import optimize

        u = self.u
        m = optimize.HierarchicalStatisticalModel(u.maker, u.names, u.locs, u.scales, u.sscales, u.eps, include_noise=self.c["inoise"], weights=u.weights)
        g = m.make_guide()
        o = optim.Adam({"lr": 1e-2}) if k % 2 else optim.SGD({"lr": 1e-6})
        self.hier.append((m, g, SVI(m, g, o, loss=Trace_ELBO())))

    def svi(self, k):
        if self.hier:
            v = self.hier[k % len(self.hier)][2].step(*self.u.data, self.u.res)
            return torch.tensor(v)

    def guide(self, k):
        if self.hier:
            self.hier[k % len(self.hier)][1](*self.u.data, self.u.res)

    def predict_hier(self, k):
        from pyro import poutine

        if self.hier:
            m, g, _ = self.hier[k % len(self.hier)]
            tr = poutine.trace(g).get_trace(*self.u.data)
            return poutine.trace(poutine.replay(m, tr)).get_trace(*self.u.data).nodes["obs"]["value"]

    def new_stat(self, k):
        from pyoptmat import optimize

        u = self.u
        self.stat.append(optimize.StatisticalModel(u.maker, u.names, u.locs, u.scales, u.eps, nan_num=bool(k % 2)))

    def predict_stat(self, k):
        if self.stat:
            return self.stat[k % len(self.stat)](*self.u.data)

    def svi_stat(self, k):
        from pyro import optim
        from pyro.infer import SVI, Trace_ELBO
        from pyro.infer.autoguide import AutoNormal, init_to_mean

        if self.stat and not self.c["cal"]["solver"]["adjoint"]:
            m = self.stat[k % len(self.stat)]
            g = AutoNormal(m, init_loc_fn=lambda s: init_to_mean(s).clone(), init_scale=1e-3)
            g.name = f"g{len(self.stat)}"
            return torch.tensor(SVI(m, g, optim.Adam({"lr": 1e-4}), loss=Trace_ELBO()).step(*self.u.data, self.u.res))

    def integrate(self, k):
        from pyoptmat import models

        w = self.c["w"]
        m, pb = zoo.make_model(w["model"], zoo.PBuild("param"))
        t, T, d, con = self.u.hist
        I = models.ModelIntegrator(m, use_adjoint=w["solver"]["adjoint"], **w["solver"]["kw"])
        c0 = set(con.tolist())
        if k % 3 == 0 and len(c0) == 1:
            y = I.solve_strain(t, d, T) if c0 == {0} else I.solve_stress(t, d, T)
        else:
            y = I.solve_both(t, T, d, con)
        if k % 2:
            y.sum().backward()
        return y

    def convert(self, k):
        from pyoptmat import experiments

        return experiments.convert_results(self.u.res, self.u.data[1], self.u.data[2])

    def newton(self, k):
        from pyoptmat import chunktime, solvers

        u = self.u
        A = u.A[0]

        def RJ(x):
            return (A @ x.unsqueeze(-1)).squeeze(-1) + 0.1 * x**3 - u.rhs, A + torch.diag_embed(0.3 * x**2)

        # sometimes the starting point is the answer
        kw = dict(rtol=1e-9, atol=[1e-9, 1e3][k % 2], miter=30)
        which = k % 5
        if which == 0:
            y = solvers.newton_raphson(RJ, u.x0, **kw)
        elif which == 1:
            y = solvers.newton_raphson_bt(RJ, u.x0, **kw)
        elif which == 2:
            y = solvers.PreconditionerReuseNonlinearSolver().solve(RJ, u.x0, **kw)
        elif which == 3:
            y = solvers.newton_raphson(lambda x: (x * 2 - u.rhs, torch.diag_embed(torch.full_like(x, 2.0))), u.x0, linsolver="diag", **kw)
        else:
            y = (chunktime.newton_raphson_chunk(lambda x: (RJ(x)[0], chunktime.BidiagonalForwardOperator(RJ(x)[1].unsqueeze(0), u.B[:0])), u.x0, chunktime.ChunkTimeOperatorSolverContext("direct"), **kw),)
        return [x for x in y if isinstance(x, torch.Tensor)]

    def operator(self, k):
        from pyoptmat import chunktime as ct

        u = self.u
        f = [ct.BidiagonalThomasFactorization, ct.BidiagonalPCRFactorization, lambda a, b: ct.BidiagonalHybridFactorization(a, b, min_size=k % 3)][k % 3]
        if k % 2:
            o = f(u.A, u.B)
            y = o(u.b)
        else:
            o = ct.BidiagonalForwardOperator(u.A, u.B, inverse_operator=f)
            y = o(u.b) if k % 4 else (o.inverse())(u.b)
        return y

    def linear(self, k):
        from pyoptmat import solvers

        u = self.u
        A = u.A[0]
        P = [solvers.LUPreconitionerOperator(A), solvers.JacobiPreconitionerOperator(A)][k % 2]
        if k % 3 == 0:
            y = P.dot(u.rhs)
        else:
            y = [solvers.lu_linear_solve, solvers.jacobi_iteration_linear_solve][k % 2](A, u.rhs)
        return y

    def interp(self, k):
        from pyoptmat import utility

        t, T, d, con = self.u.hist
        if k % 2:
            y = utility.ArbitraryBatchTimeSeriesInterpolator(t, d)(t)
        else:
            y = utility.BatchTimeSeriesInterpolator(t, d)(t[k % 5])
        return y

    def scale(self, k):
        from pyoptmat import optimize as o

        u = self.u
        lo, hi, mn = u.bounds
        f = [
            lambda: o.bounded_scale_function((lo, hi)),
            lambda: o.bounded_scale_function((lo, hi), min_bound=mn),
            lambda: o.bound_factor(hi, 0.5, min_bound=mn),
            lambda: o.clamp_scale_function((lo, hi)),
            lambda: o.bound_and_scale(hi, (lo, mn)),
            lambda: o.log_bound_and_scale(hi, (lo, mn)),
        ][k % 6]()
        y = f(u.x)
        return y

    def load(self, k):
        from pyoptmat import experiments
        from sim.props import p13

        c = {"n": 4, "tests": [["tensile", 0], ["creep", 1]], "dseed": k, "dtypes": ["f8"] * 4 + ["i8"], "labels": "str"}
        a = p13.arrays(c, p13.stored(c))
        old = {n: v.tobytes() for n, v in a.items()}
        experiments.load_results(p13.Mapping(a, None, None))
        if old != {n: v.tobytes() for n, v in a.items()}:
            raise Violation("caller-data-changed", "arrays handed to load_results")

    def make(self, k):
        from pyoptmat import experiments as e

        u = self.u
        v = u.own.setdefault("rates", torch.tensor([1e-3, 1e-4]))
        T = u.own.setdefault("test temps", torch.tensor([500.0, 600.0]))
        lim = u.own.setdefault("limits", torch.tensor([0.1, 0.2]))
        s = u.own.setdefault("stresses", torch.tensor([100.0, 120.0]))
        hold = u.own.setdefault("holds", torch.tensor([1e6, 2e6]))
        u.watch()
        return e.make_tension_tests(v, T, lim, 5) if k % 2 else e.make_creep_tests(s, T, v, hold, 3, 4, logspace=bool(k % 4))

    def edit(self, k):
        """the caller changes a starting value that models were built from"""
        u = self.u
        if self.c["form"] == "shared":
            return
        t = u.ics[k % len(u.ics)]
        with torch.no_grad():
            t.mul_(1.01)
        if self.c["form"] == "leaf" and k % 3 == 0 and t.grad is None:
            t.grad = torch.ones_like(t)
        u.watch()

    def fail(self, k):
        """a calibration step that fails half way"""
        if not self.det:
            return
        m, opt = self.det[k % len(self.det)]
        old = m.maker

        def bad(*a, **kw):
            raise RuntimeError("user error")

        m.maker = bad
        try:
            m(*self.u.data)
        except RuntimeError:
            pass
        finally:
            m.maker = old


STOCHASTIC = {"svi", "svi-stat", "guide", "predict-hier", "predict-stat"}


def execute(c, ctx):
    import warnings

    s = Sim(c)
    prev = "start"
    done = 0
    for q, (name, k) in enumerate(c["events"]):
        where = f"by event {q} {name}({k}), {c['form']} tensors"
        before = s.state()
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                out = s.ev(name, k)
        except (Violation, CaseTimeout):
            raise
        except Exception as e:
            if s.u.odd and name in STOCHASTIC:
                # densities of nearly known parameters overflow inside pyro; the data must be intact all the same
                ctx.fault("training-overflowed")
                s.u.check(where + ", which raised")
                continue
            raise Violation("clean-raises", f"{where}: {type(e).__name__}: {str(e)[:160]}")
        s.u.check(where)
        after = s.state()
        moved = [n for n in before if before[n] != after.get(n)]
        if name == "train-det" and s.det:
            j = k % len(s.det)
            moved = [n for n in moved if not n.startswith(f"det{j}.")]
        elif name in ("svi", "svi-stat"):
            moved = [n for n in moved if not n.startswith("store.")]
        if moved:
            raise Violation("model-changed", f"{moved[:3]} {where}")
        if out is not None:
            done += 1
            for x in out if isinstance(out, (list, tuple)) else [out]:
                ctx.tensor("out", x, hold=None if name in ("new-det", "train-det") or not isinstance(x, torch.Tensor) else f"result of event {q} {name}({k})")
        ctx.event(name, k)
        ctx.probe(name)
        ctx.reach((c["form"], prev, name))
        if name in ("edit", "fail"):
            ctx.fault("caller-" + name)
        prev = name
    ctx.nontrivial = done > 1
    ctx.sim_time += len(c["events"])


def shrink(c):
    for ev in shrink_list(c["events"], 1):
        yield dict(c, events=ev)
    if c["form"] != "plain":
        yield dict(c, form="plain")
    for o in shrink_list(c.get("odd", []), 0):
        yield dict(c, odd=o)
