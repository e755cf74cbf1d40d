"""P02: a failed or interrupted call leaves no trace behind."""
import torch

from sim import env, zoo
from sim.core import Skip, Violation, shrink_list

RUNS = {"quick": 260, "thorough": 14000}
RULE = "one run = one call (or backward pass) cut short at several seeded points on the same objects and then repeated; distinct = distinct event-log digest (points hit, exception kinds, bits of the repeated result), nontrivial = at least one injected fault fired"
TIME = "number of interrupted calls is the only clock"
MEASURE = "distinct (subject, fault mechanism, function or tensor operation hit) triples"
REAL = ["pyoptmat.ode", "pyoptmat.chunktime", "pyoptmat.solvers", "pyoptmat.models and material laws", "pyoptmat.utility", "pyoptmat.optimize", "pyoptmat.experiments", "pyro ELBO"]
STUBS = ["user callbacks (rate equations, residuals, model makers, preconditioners) that raise at a chosen evaluation", "failing tensor operations are raised by a torch dispatch mode before the operation runs"]
ASSUMPTIONS = [
    "crash points are source lines of the package and tensor operations; the inside of a torch kernel is atomic",
    "random streams are compared only for calls that are not meant to draw random numbers",
    "gradients are taken with torch.autograd.grad; partial accumulation into .grad by torch itself is not part of the property",
    "an optimiser's own step is outside the package and is not interrupted",
]
CHUNK = 4

EXC = {
    "interrupt": lambda: env.Injected("interrupt"),
    "keyboard": lambda: KeyboardInterrupt("simulated"),
    "memory": lambda: MemoryError("simulated: not enough memory"),
    "oom": lambda: torch.OutOfMemoryError("simulated: out of memory"),
    "runtime": lambda: env.InjectedError("simulated failure"),
    "linalg": lambda: torch.linalg.LinAlgError("simulated: singular"),
    "value": lambda: ValueError("simulated"),
    "float": lambda: FloatingPointError("simulated"),
    "index": lambda: IndexError("simulated"),
    "type": lambda: TypeError("simulated"),
    "key": lambda: KeyError("simulated"),
    "attr": lambda: AttributeError("simulated"),
    "arith": lambda: ZeroDivisionError("simulated"),
    "notimpl": lambda: NotImplementedError("simulated"),
    "assert": lambda: AssertionError("simulated"),
    "stop": lambda: StopIteration("simulated"),
}


class Hook:
    """A user callback that can be told to fail."""

    def __init__(self):
        self.n = 0
        self.at = None
        self.exc = None

    def arm(self, at, exc):
        self.n, self.at, self.exc = 0, at, exc

    def __call__(self):
        self.n += 1
        if self.at is not None and self.n == self.at:
            raise self.exc()


# ------------------------------------------------------------------- generation
SUBJECTS = ["toy", "toy", "model", "model", "calib", "calib", "hier", "stat", "solvers", "solvers", "operators", "convert"]


def generate(rng, tier, i):
    kind = rng.choice(SUBJECTS)
    c = {"kind": kind}
    if kind == "toy":
        spec = zoo.gen_net(rng) if rng.random() < 0.25 else zoo.gen_toy(rng)
        nb, n = rng.choice([1, 2, 3]), rng.randint(3, 9)
        s = zoo.gen_solver(rng, n)
        if not s["adjoint"]:
            s["kw"]["direct_solve_method"] = "thomas"
        c.update(ode=spec, times=zoo.gen_times(rng, n, nb), y0=[[zoo.rnd(rng, 0.05, 0.9) for _ in range(spec["size"])] for _ in range(nb)], sol=s, part=rng.choice(["val", "grad", "bwd"]))
    elif kind == "model":
        c["w"] = zoo.gen_workload(rng, n=rng.randint(4, 6), nb=rng.choice([1, 2]), light=True)
        c["part"] = rng.choice(["val", "grad", "bwd"])
        c["style"] = rng.choice(["param", "given"])
        if rng.random() < 0.25:
            # explicit integration, with strains small enough for it
            c["w"] = zoo.gen_workload(rng, n=rng.randint(4, 6), nb=rng.choice([1, 2]), light=True, ctl=0, method="forward-euler")
            for h in c["w"]["hist"]:
                h["data"] = [0.02 * x for x in h["data"]]
    elif kind in ("calib", "convert"):
        c["cal"] = zoo.gen_calibration(rng, nb=rng.choice([1, 2, 3]), n=rng.randint(5, 6))
        c["part"] = rng.choice(["val", "grad", "bwd"])
    elif kind in ("hier", "stat"):
        c["cal"] = zoo.gen_calibration(rng, nb=rng.choice([1, 2]), n=5, hier=True, flow=rng.choice(["perfect", "perfect", "isokin"]))
        c["tnoise"] = rng.random() < 0.5
        c["inoise"] = rng.random() < 0.5
        c["weights"] = rng.random() < 0.5
        c["part"] = rng.choice(["val", "grad"])
    elif kind == "solvers":
        c.update(which=rng.choice(["nr", "nr-diag", "nrbt", "chunk", "chunk", "reuse", "reuse", "lu_gmres", "jacobi_gmres", "gmres"]), nb=rng.choice([1, 2, 3]), size=rng.choice([1, 2, 4, 5]), part="val", roots=rng.random() < 0.7)
    else:
        c.update(alg={"nblk": rng.randint(2, 9), "sbat": rng.choice([1, 2]), "sblk": rng.choice([1, 2, 3]), "method": rng.choice(["thomas", "pcr", "hybrid"]), "min": rng.choice([0, 1, 2, 4])}, part="val")
    c["faults"] = []
    for _ in range(rng.randint(1, 4)):
        how = rng.choice(["line", "line", "op", "op", "user"])
        exc = rng.choice(list(EXC))
        if exc in ("stop", "notimpl", "attr", "key", "index", "type") and rng.random() < 0.6:
            exc = rng.choice(["interrupt", "memory", "runtime", "linalg", "oom"])
        # position as a fraction of the undisturbed run, biased towards both ends sometimes
        f = rng.choice([rng.random(), rng.random(), rng.random() ** 3, 1 - rng.random() ** 3])
        # the last entry: the call that is cut short works on other values than the one repeated
        c["faults"].append([how, f, exc, rng.random() < 0.25, rng.random() < 0.5])
    return c


# --------------------------------------------------------------------- subjects
class UserODE(torch.nn.Module):
    def __init__(self, base, hook):
        super().__init__()
        self.base = base
        self.hook = hook

    def forward(self, t, y):
        self.hook()
        return self.base(t, y)


class UserFlow(torch.nn.Module):
    """A user's own constitutive model around one of the package's."""

    def __init__(self, base, hook):
        super().__init__()
        self.base = base
        self.hook = hook

    @property
    def nhist(self):
        return self.base.nhist

    def forward(self, *a):
        self.hook()
        return self.base(*a)


def cot(y):
    g = torch.Generator().manual_seed(77)
    return (torch.rand(y.shape, generator=g) * 2 - 1) / (y.detach().abs().max() + 1e-3)


class Subject:
    """self.call() -> list of tensors; self.tensors to watch; self.random if it draws."""

    random = False
    alt = False  # use other values of the same shapes

    def __init__(self, c):
        self.c = c
        self.hook = Hook()
        self.tensors = []
        getattr(self, "build_" + c["kind"])(c)

    # -- integrations
    def _vgb(self, forward, leaves):
        """value / gradient / backward-only calls"""
        part = self.c["part"]
        if part == "val":
            self.call = lambda: [forward().detach()]
        elif part == "grad":

            def call():
                y = forward()
                return [y.detach()] + list(torch.autograd.grad(y, leaves, cot(y), allow_unused=True))

            self.call = call
        else:
            y = forward()
            g = cot(y)
            self.tensors += [("result", y), ("cotangent", g)]
            g2 = -1.7 * g
            self.call = lambda: list(torch.autograd.grad(y, leaves, g2 if self.alt else g, retain_graph=True, allow_unused=True))

    def build_toy(self, c):
        from pyoptmat import ode

        f = UserODE(zoo.make_ode(c["ode"]), self.hook)
        y0 = torch.tensor(c["y0"]).requires_grad_(True)
        t = torch.tensor(c["times"])
        fn = ode.odeint_adjoint if c["sol"]["adjoint"] else ode.odeint
        leaves = list(f.parameters()) + [y0]
        self.tensors = [("times", t), ("equations", f)] + [(f"p{i}", p) for i, p in enumerate(leaves)]
        y1, t1 = (0.8 * y0).detach().requires_grad_(True), 0.9 * t
        self._vgb(lambda: fn(f, y1, t1, **c["sol"]["kw"]) if self.alt else fn(f, y0, t, **c["sol"]["kw"]), leaves)

    def build_model(self, c):
        from pyoptmat import models

        w = c["w"]
        pb = zoo.PBuild("param")
        m, _ = zoo.make_model(w["model"], pb)
        leaves = pb.leaves
        data = zoo.stack_history(w["hist"])
        t, T, d, con = data
        kw = dict(w["solver"]["kw"])
        adj = w["solver"]["adjoint"]
        d1 = 0.83 * d
        if c["style"] == "param":
            I = models.ModelIntegrator(UserFlow(m, self.hook), use_adjoint=adj, **kw)
            fwd = lambda: I.solve_both(t, T, d1 if self.alt else d, con)
        else:
            leaves = [p.detach().clone().requires_grad_(True) for p in leaves]

            def fwd():
                ps = [p * 1.0 for p in leaves]
                mm, _ = zoo.make_model(w["model"], zoo.PBuild("given", ps))
                k2 = dict(kw, extra_params=ps) if adj else kw
                return models.ModelIntegrator(UserFlow(mm, self.hook), use_adjoint=adj, **k2).solve_both(t, T, d1 if self.alt else d, con)

        self.tensors = list(zip(["times", "temps", "data", "control"], data)) + list(zip(pb.names, leaves)) + [("model", m)]
        self._vgb(fwd, leaves)

    # -- calibration
    def _maker(self, c):
        maker, names, ics = zoo.make_maker(c["cal"])

        def mk(*a, **k):
            self.hook()
            return maker(*a, **k)

        return mk, names, ics

    def build_calib(self, c):
        from pyoptmat import optimize

        mk, names, ics = self._maker(c)
        m = optimize.DeterministicModel(mk, names, ics)
        data = zoo.stack_tests(c["cal"]["tests"])
        self.tensors = list(zip(["data", "cycles", "types", "control"], data)) + [("ic " + n, p) for n, p in zip(names, ics)] + list(m.named_parameters()) + [("model", m)]
        d1 = torch.stack([data[0][0], data[0][1], 0.83 * data[0][2]])
        self._vgb(lambda: m(d1, *data[1:]) if self.alt else m(*data), list(m.parameters()))

    def build_convert(self, c):
        from pyoptmat import experiments

        data, cyc, typ, con = zoo.stack_tests(c["cal"]["tests"])
        x = (torch.rand(cyc.shape, generator=torch.Generator().manual_seed(5)) * 100).requires_grad_(True)
        self.tensors = [("raw", x), ("cycles", cyc), ("types", typ)]
        x1 = 0.7 * x.detach() + 3.0
        self._vgb(lambda: experiments.convert_results(x1.requires_grad_(True) if self.alt else x, cyc, typ), [x])

    def build_hier(self, c):
        import pyro
        from pyro.infer import Trace_ELBO
        from pyoptmat import experiments, optimize

        pyro.clear_param_store()
        mk, names, ics = self._maker(c)
        eps = torch.full((len(experiments.exp_map),), 0.5) if c["tnoise"] else torch.tensor(0.5)
        sc = [0.1 * p.abs() + 1e-3 for p in ics]
        ss = [0.05 * p.abs() + 1e-3 for p in ics]
        wts = {k: 1.0 + 0.5 * zoo.TYPE_CODE[k] for k in experiments.exp_map} if c["weights"] else None
        m = optimize.HierarchicalStatisticalModel(mk, names, ics, sc, ss, eps, include_noise=c["inoise"], weights=wts)
        guide = m.make_guide()
        data = zoo.stack_tests(c["cal"]["tests"])
        res = torch.rand(data[1].shape, generator=torch.Generator().manual_seed(5)) * 50
        guide(*data)
        store = pyro.get_param_store()
        ps = [store._params[k] for k in sorted(store._params)]
        self.tensors = (
            list(zip(["data", "cycles", "types", "control"], data))
            + [("results", res), ("noise", eps)]
            + [("loc", p) for p in ics]
            + [("loc scale", p) for p in sc]
            + [("scale scale", p) for p in ss]
            + [(f"param {k}", p) for k, p in zip(sorted(store._params), ps)]
        )

        def call():
            # Delta guides: nothing here is random
            loss = Trace_ELBO().differentiable_loss(m, guide, *data, res * 0.7 if self.alt else res)
            if c["part"] == "val":
                return [loss.detach()]
            return [loss.detach()] + list(torch.autograd.grad(loss, ps, allow_unused=True))

        self.call = call

    def build_stat(self, c):
        from pyoptmat import experiments, optimize

        mk, names, ics = self._maker(c)
        eps = torch.full((len(experiments.exp_map),), 0.5) if c["tnoise"] else torch.tensor(0.5)
        sc = [0.01 * p.abs() + 1e-4 for p in ics]
        m = optimize.StatisticalModel(mk, names, ics, sc, eps)
        data = zoo.stack_tests(c["cal"]["tests"])
        self.tensors = list(zip(["data", "cycles", "types", "control"], data)) + [("noise", eps)] + [("loc", p) for p in ics] + [("scale", p) for p in sc]
        self.random = True

        def call():
            torch.manual_seed(c["seed"] + self.alt)
            return [m(*data).detach()]

        self.call = call

    # -- solvers
    def build_solvers(self, c):
        from pyoptmat import chunktime, solvers

        n, nb = c["size"], c["nb"]
        g = torch.Generator().manual_seed(c["seed"])
        A = 0.3 * torch.rand(nb, n, n, generator=g) + torch.diag_embed(2 + torch.rand(nb, n, generator=g))
        b = torch.rand(nb, n, generator=g) + 0.5
        x0 = torch.full((nb, n), 0.05)
        x1 = -2.0 - torch.rand(nb, n, generator=g)
        self.tensors = [("A", A), ("b", b), ("x0", x0)]
        start = lambda: x1 if self.alt else x0

        def RJ(x):
            self.hook()
            return (A @ x.unsqueeze(-1)).squeeze(-1) + 0.2 * x**3 - (2.0 * b if self.alt else b), A + torch.diag_embed(0.6 * x**2)

        kw = dict(rtol=1e-11, atol=1e-11, miter=30)
        wh = c["which"]
        if wh == "nr":
            self.call = lambda: list(solvers.newton_raphson(RJ, start(), **kw))
        elif wh == "nr-diag":
            self.call = lambda: list(solvers.newton_raphson(RJ, start(), linsolver="diag", rtol=1e-8, atol=1e-8))
        elif wh == "nrbt":
            self.call = lambda: list(solvers.newton_raphson_bt(RJ, start(), **kw))
        elif wh == "chunk":
            E = torch.zeros(0, nb, n, n)

            def f2(x):
                R, J = RJ(x)
                return R, chunktime.BidiagonalForwardOperator(J.unsqueeze(0), E)

            s = chunktime.ChunkTimeOperatorSolverContext("direct")
            self.call = lambda: [chunktime.newton_raphson_chunk(f2, start(), s, **kw)]
        elif wh == "reuse":
            s = solvers.PreconditionerReuseNonlinearSolver()
            # what is kept between calls may change the last digits, nothing more
            self.close = True
            # three roots for each unknown, the start decides
            z0 = torch.full((nb, n), 0.9)

            def roots(x):
                self.hook()
                return x**3 - x + 0.01 * x.mean(-1, keepdim=True), torch.diag_embed(3 * x**2 - 1) + 0.01 / n

            if c.get("roots"):
                self.call = lambda: list(s.solve(roots, x1 if self.alt else z0, **kw))
            else:
                self.call = lambda: list(s.solve(RJ, start(), **kw))
        else:

            class M:
                def __init__(s):
                    s.op = solvers.LUPreconitionerOperator(A)

                def dot(s, v):
                    self.hook()
                    return s.op.dot(v)

            if wh == "gmres":
                M = M()
                self.call = lambda: [solvers.gmres(A, b - 1.2 * self.alt, M=M, check=1, maxiter=n + 2)]
            else:
                self.call = lambda: [getattr(solvers, wh)(A, b - 1.2 * self.alt, maxiter=n + 3, **({} if wh == "lu_gmres" else {"check": 1}))]

    close = False

    def build_operators(self, c):
        from pyoptmat import chunktime

        a = c["alg"]
        g = torch.Generator().manual_seed(c["seed"])
        r = lambda *s: torch.rand(*s, generator=g) - 0.5
        D = r(a["nblk"], a["sbat"], a["sblk"], a["sblk"]) + 2.5 * torch.eye(a["sblk"])
        U = r(a["nblk"] - 1, a["sbat"], a["sblk"], a["sblk"])
        v = r(a["sbat"], a["nblk"] * a["sblk"])
        cls = {
            "thomas": chunktime.BidiagonalThomasFactorization,
            "pcr": chunktime.BidiagonalPCRFactorization,
            "hybrid": lambda A, B: chunktime.BidiagonalHybridFactorization(A, B, min_size=a["min"]),
        }[a["method"]]
        fwd = chunktime.BidiagonalForwardOperator(D, U, inverse_operator=cls)
        inv = cls(D, U)
        self.tensors = [("D", D), ("U", U), ("v", v)]
        v1 = 0.5 - v

        def call():
            x = v1 if self.alt else v
            return [inv(x), fwd(x), fwd.inverse()(x), fwd.to_diag().to_dense()]

        self.call = call


# -------------------------------------------------------------------- execution
def same(S, got, want, cls, where):
    if len(got) != len(want):
        raise Violation(cls, f"{where}: number of results")
    for j, (x, y) in enumerate(zip(got, want)):
        if (x is None) != (y is None):
            raise Violation(cls, f"{where}: result {j} missing")
        if x is None:
            continue
        if x.shape != y.shape:
            raise Violation(cls, f"{where}: result {j} has another shape")
        if S.close:
            if not torch.allclose(x, y, rtol=1e-6, atol=1e-8):
                raise Violation(cls, f"{where}: result {j} differs")
        elif env.bits(x) != env.bits(y):
            d = (x - y).abs().max().item()
            raise Violation(cls, f"{where}: result {j} differs by {d:.2e}")


def execute(c, ctx):
    from sim import core

    # the undisturbed run, with objects of its own
    with env.solver_signals() as sig:
        try:
            S0 = Subject(c)
            first = S0.call()
            want = [None if x is None else x.detach().clone() for x in first]
        except (Skip, core.CaseTimeout):
            raise
        except Exception as e:
            raise Violation("clean-raises", f"{type(e).__name__}: {str(e)[:200]}")
    if sig or any(x is not None and not bool(torch.isfinite(x).all()) for x in want):
        raise Skip("not converged")
    for x in first:
        if x is not None:
            ctx.tensor("first", x, hold="result of the undisturbed call")
    # how many opportunities each mechanism has
    tl, to = env.LineTracer(), env.OpTracer()
    with tl:
        S0.call()
    with to:
        S0.call()
    S0.hook.arm(None, None)
    S0.call()
    total = {"line": tl.n, "op": to.n, "user": S0.hook.n}
    core.reset_world(c["seed"])
    S = Subject(c)
    if S.random:
        S.call()
    fired = 0
    for how, frac, exc, again, alt in c["faults"]:
        n = total[how]
        if n == 0:
            how, n = "line", total["line"]
        at = 1 + min(n - 1, int(frac * n))
        watch = env.Watch(S.tensors)
        world = env.World()
        mk = EXC[exc]
        S.alt = alt
        hit = "callback"
        err = got = None
        where = f"{c['kind']} {c.get('which', '')} {c['part']} after {exc} at {how} {at}/{n}"
        import warnings

        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if how == "line":
                    tr = env.LineTracer(at=at, exc=lambda m: mk())
                    with tr:
                        got = S.call()
                elif how == "op":
                    tr = env.OpTracer(at=at, exc=lambda m: mk())
                    with tr:
                        got = S.call()
                else:
                    tr = None
                    S.hook.arm(at, mk)
                    got = S.call()
        except core.CaseTimeout:
            raise
        except BaseException as e:  # noqa
            err = e
        finally:
            S.alt = False
            did = S.hook.n >= at if how == "user" else tr.hit is not None
            S.hook.arm(None, None)
        if tr is not None:
            hit = str(tr.hit)
        ctx.event(how, at, exc, hit, type(err).__name__)
        if not did:
            if alt:
                # other values may need fewer steps, or fail to converge with an error
                continue
            if err is not None:
                raise Violation("spurious-error", f"{where}: {type(err).__name__}: {str(err)[:150]}")
            same(S, got, want, "retry-differs", where + " (fault did not fire)")
            continue
        fired += 1
        ctx.fault(f"{how}-{exc}")
        ctx.probe("cut-short-on-other-values", int(alt))
        ctx.reach((c["kind"], how, hit))
        if err is None and not alt:
            S.close, keep = True, S.close
            same(S, got, want, "error-swallowed", f"{where} in {hit}")
            S.close = keep
            ctx.probe("fault-absorbed-with-correct-answer")
        watch.check("input-modified", f"{where} in {hit}")
        world.check("settings-modified", f"{where} in {hit}", ignore=("torch rng",) if S.random else ())
        if again:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                same(S, retry(S, where), want, "retry-differs", f"retry {where} in {hit}")
    watch = env.Watch(S.tensors)
    got = retry(S, "the last fault")
    same(S, got, want, "retry-differs", f"{c['kind']} {c['part']} retry after {c['faults']}")
    watch.check("input-modified", "by the retry")
    # and other objects are not affected either
    core.reset_world(c["seed"])
    same(S, Subject(c).call(), want, "others-differ", f"{c['kind']} fresh objects after {c['faults']}")
    for x in got:
        if x is not None:
            ctx.tensor("r", x, hold="result of the retry")
    ctx.nontrivial = fired > 0
    ctx.sim_time += fired


def retry(S, where):
    try:
        return S.call()
    except Exception as e:
        raise Violation("retry-raises", f"after {where}: {type(e).__name__}: {str(e)[:200]}")


def shrink(c):
    for f in shrink_list(c["faults"]):
        yield dict(c, faults=f)
    for i, f in enumerate(c["faults"]):
        for k, d in ((2, "runtime"), (3, False), (4, False)):
            if f[k] != d:
                yield dict(c, faults=c["faults"][:i] + [f[:k] + [d] + f[k + 1 :]] + c["faults"][i + 1 :])
    if "cal" in c and len(c["cal"]["tests"]) > 1:
        for t in c["cal"]["tests"]:
            yield dict(c, cal=dict(c["cal"], tests=[t]))
    if "w" in c and len(c["w"]["hist"]) > 1:
        for t in c["w"]["hist"]:
            yield dict(c, w=dict(c["w"], hist=[t]))
