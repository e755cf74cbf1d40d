"""P01: concurrent integrations, gradients and predictions never interfere."""
import torch

from sim import env, zoo
from sim.core import Skip, Violation, shrink_list

RUNS = {"quick": 280, "thorough": 9000}
RULE = "one run = one set of threads with one seeded schedule of line (and tensor-operation) switches; distinct = distinct event-log digest (switch trace and result bits), nontrivial = control changed hands inside the package at least once while two threads were in flight"
TIME = "loading-history time integrated by all threads"
MEASURE = "distinct (function interrupted, function set resumed) pairs at thread switches"
REAL = ["pyoptmat.ode", "pyoptmat.chunktime", "pyoptmat.solvers", "pyoptmat.models", "pyoptmat.flowrules/hardening/damage/temperature/scaling", "pyoptmat.utility", "pyoptmat.optimize.DeterministicModel", "pyoptmat.experiments.convert_results", "real Python threads, torch autograd engine"]
STUBS = ["thread scheduling: exactly one thread runs, the simulator decides at every traced source line (and before every tensor operation in some runs)"]
ASSUMPTIONS = [
    "interleavings are at Python source lines of the package and, in some runs, tensor operations; a torch kernel is one atomic step; bytecode granularity is not used because CPython 3.12 itself crashes when several threads trace opcodes of the same code",
    "statistical (pyro) models are excluded: pyro's own handler stack is process-wide by design",
    "threads share the model, parameters, solver settings, integrator and input tensors; each thread has its own cotangents",
    "stateful solver objects (PreconditionerReuseNonlinearSolver, factorisations under construction) are not shared between threads",
]
CHUNK = 3


# ------------------------------------------------------------------- generation
def gen_op(rng, kind):
    if kind == "toy":
        return rng.choice(
            [
                ["ode", rng.random() < 0.5, rng.randrange(2), rng.randrange(10**6)],
                ["odegrad", rng.random() < 0.5, rng.randrange(2), rng.randrange(10**6)],
            ]
        )
    if kind == "model":
        return rng.choice(
            [
                ["solve", rng.choice(["both", "own"]), rng.randrange(2)],
                ["grad", rng.choice(["both", "own"]), rng.randrange(2), rng.randrange(10**6)],
                ["grad", rng.choice(["both", "own"]), rng.randrange(2), rng.randrange(10**6)],
            ]
        )
    if kind == "calib":
        return rng.choice([["predict", rng.randrange(2)], ["fit", rng.randrange(2), rng.randrange(10**6)], ["convert", rng.randrange(2), rng.randrange(10**6)]])
    return rng.choice([["matvec", rng.randrange(2), rng.randrange(10**6)], ["newton", rng.randrange(2), rng.randrange(10**6)], ["interp", rng.randrange(2)], ["gmres", rng.randrange(2), rng.randrange(10**6)]])


def twin(op, k):
    """the same operation on other values"""
    at = 1 if op[0] in ("predict", "fit", "convert", "matvec", "newton", "interp", "gmres") else 2
    op = list(op)
    op[at] = (op[at] + k) % 2
    if len(op) > at + 1:
        op[at + 1] += k
    return op


def generate(rng, tier, i):
    kind = rng.choice(["toy", "toy", "model", "model", "calib", "algebra"])
    c = {"kind": kind}
    if kind == "toy":
        spec = zoo.gen_net(rng) if rng.random() < 0.25 else zoo.gen_toy(rng)
        nb, n = rng.choice([1, 2, 3]), rng.randint(3, 9)
        c["ode"] = spec
        c["times"] = [zoo.gen_times(rng, n, nb), zoo.gen_times(rng, n, nb)]
        c["y0"] = [[[zoo.rnd(rng, 0.05, 0.9) for _ in range(spec["size"])] for _ in range(nb)] for _ in range(2)]
        sols = [zoo.gen_solver(rng, n), zoo.gen_solver(rng, n)]
        for s in sols:
            # backpropagation through cyclic reduction is refused by torch
            s["kw"]["direct_solve_method"] = "thomas" if rng.random() < 0.5 else s["kw"]["direct_solve_method"]
        c["sols"] = sols
    elif kind == "model":
        W = zoo.gen_workload(rng, n=rng.randint(4, 6), nb=rng.choice([1, 2]), light=True)
        W2 = zoo.gen_workload(rng, nb=rng.choice([1, 2, 3]), n=rng.randint(4, 6), ctl=rng.choice([0, 1, 2]), flow="perfect", dmg="plain")
        W["solver"]["kw"]["atol"] = 1e-10
        c["w"] = W
        c["hist2"] = W2["hist"]
        c["shared"] = rng.random() < 0.7
    elif kind == "calib":
        c["cal"] = zoo.gen_calibration(rng, nb=rng.choice([1, 2, 3]), n=5)
        c["tests2"] = [zoo.gen_test(rng, 5) for _ in range(rng.choice([1, 2, 3]))]
        c["one_model"] = rng.random() < 0.7
    else:
        c["alg"] = {"nblk": rng.randint(2, 7), "sbat": rng.choice([1, 2]), "sblk": rng.choice([1, 2, 3]), "method": rng.choice(["thomas", "pcr", "hybrid"]), "min": rng.choice([0, 1, 2, 4])}
    nt = rng.choice([2, 2, 2, 3, 3, 4])
    c["threads"] = [[gen_op(rng, kind) for _ in range(rng.choice([1, 1, 2]))] for _ in range(nt)]
    if rng.random() < 0.45:
        # everybody does the same at the same time, with other values of the same shapes
        c["twins"] = True
        if kind == "toy":
            c["sols"][1] = c["sols"][0]
            c["times"][1] = [[0.9 * x for x in r] for r in c["times"][0]]
        elif kind == "model":
            c["hist2"] = [dict(h, data=[0.83 * x for x in h["data"]]) for h in c["w"]["hist"]]
        elif kind == "calib":
            c["tests2"] = [dict(h, data=[0.83 * x for x in h["data"]]) for h in c["cal"]["tests"]]
        c["threads"] = [[twin(op, k) for op in c["threads"][0]] for k in range(nt)]
    c["ops"] = rng.random() < 0.3
    c["kill"] = [[rng.randrange(nt), rng.choice([rng.randint(1, 60), rng.randint(1, 600), rng.randint(1, 3000)])]] if rng.random() < 0.2 else []
    est = {"toy": 700, "model": 6000, "calib": 4000, "algebra": 300}[kind] * nt
    c["hot"] = None
    if rng.random() < 0.6:
        # hand over in a few functions only, but there at (nearly) every line
        if rng.random() < 0.4:
            m = rng.choice([3, 6, 12, 25])
            c["hot"] = ["meet", m, rng.randrange(m)]
        elif rng.random() < 0.5:
            m = rng.choice([3, 6, 12])
            c["hot"] = [m, rng.randrange(m)]
        else:
            # ... or in one file only
            files = {"toy": ["ode", "ode", "chunktime", "utility"], "algebra": ["chunktime", "solvers", "utility"], "model": ["models", "models", "ode", "flowrules", "hardening", "damage", "temperature", "utility", "chunktime"]}
            files["calib"] = files["model"] + ["experiments", "experiments", "optimize", "optimize"]
            c["hot"] = ["file", rng.choice(files[kind]) + ".py"]
    if kind in ("toy", "model") and rng.random() < 0.25:
        # simultaneous adjoint passes through blocks of one size, handing over line by line
        c["twins"], c["ops"] = True, False
        m = rng.choice([3, 6, 12])
        c["hot"] = rng.choice([["file", rng.choice(["ode", "ode", "chunktime"]) + ".py"], ["meet", m, rng.randrange(m)], ["meet", m, rng.randrange(m)]])
        if kind == "toy":
            c["sols"][0]["adjoint"] = True
            c["sols"][1] = c["sols"][0]
            c["times"][1] = [[0.9 * x for x in r] for r in c["times"][0]]
            op = ["odegrad", True, 0, rng.randrange(10**6)]
        else:
            c["w"]["solver"]["adjoint"] = True
            c["hist2"] = [dict(h, data=[0.83 * x for x in h["data"]]) for h in c["w"]["hist"]]
            op = ["grad", rng.choice(["both", "own"]), 0, rng.randrange(10**6)]
        c["threads"] = [[twin(op, k)] for k in range(nt)]
    c["switches"] = env.gen_switches(rng, est * (2 if c["ops"] else 1), nt, bool(c["hot"]), march=bool(c.get("twins")) and rng.random() < 0.4)
    return c


# -------------------------------------------------------------------- execution
class Shared:
    """Objects shared by all threads."""

    def __init__(self, c):
        from pyoptmat import chunktime, models, optimize, utility

        self.c = c
        k = c["kind"]
        self.watch = []
        if k == "toy":
            self.f = zoo.make_ode(c["ode"])
            self.ps = list(self.f.parameters())
            self.times = [torch.tensor(t) for t in c["times"]]
            self.y0 = [torch.tensor(y) for y in c["y0"]]
            self.watch = [(f"p{i}", p) for i, p in enumerate(self.ps)] + [("t0", self.times[0]), ("t1", self.times[1]), ("y0", self.y0[0]), ("y1", self.y0[1])]
        elif k == "model":
            self.pb = zoo.PBuild("param")
            self.model, _ = zoo.make_model(c["w"]["model"], self.pb)
            self.ps = self.pb.leaves
            self.data = [zoo.stack_history(h) for h in (c["w"]["hist"], c["hist2"])]
            self.mk = lambda: models.ModelIntegrator(self.model, use_adjoint=c["w"]["solver"]["adjoint"], **c["w"]["solver"]["kw"])
            self.integ = self.mk() if c["shared"] else None
            self.watch = list(zip(self.pb.names, self.ps)) + [(f"d{i}{j}", x) for i, d in enumerate(self.data) for j, x in enumerate(d)]
        elif k == "calib":
            maker, names, ics = zoo.make_maker(c["cal"])
            self.mk = lambda: optimize.DeterministicModel(maker, names, ics)
            self.model = self.mk()
            self.data = [zoo.stack_tests(c["cal"]["tests"]), zoo.stack_tests(c["tests2"])]
            self.watch = list(zip(names, ics)) + list(self.model.named_parameters()) + [(f"d{i}{j}", x) for i, d in enumerate(self.data) for j, x in enumerate(d)]
        else:
            a = c["alg"]
            g = torch.Generator().manual_seed(c["seed"])
            r = lambda *s: torch.rand(*s, generator=g) - 0.5
            self.D = r(a["nblk"], a["sbat"], a["sblk"], a["sblk"]) + 2.5 * torch.eye(a["sblk"])
            self.U = r(a["nblk"] - 1, a["sbat"], a["sblk"], a["sblk"])
            self.cls = {
                "thomas": chunktime.BidiagonalThomasFactorization,
                "pcr": chunktime.BidiagonalPCRFactorization,
                "hybrid": lambda A, B: chunktime.BidiagonalHybridFactorization(A, B, min_size=a["min"]),
            }[a["method"]]
            self.fwd = chunktime.BidiagonalForwardOperator(self.D, self.U, inverse_operator=self.cls)
            self.ctxs = [chunktime.ChunkTimeOperatorSolverContext("direct"), chunktime.ChunkTimeOperatorSolverContext("dense")]
            self.xs = [r(a["nblk"] * a["sbat"] * 0 + a["sbat"], a["nblk"] * a["sblk"]) for _ in range(2)]
            self.t = torch.linspace(0, 1, 6).unsqueeze(-1).expand(-1, a["sbat"]).contiguous()
            self.v = r(6, a["sbat"])
            self.ip = utility.ArbitraryBatchTimeSeriesInterpolator(self.t, self.v)
            self.ip0 = utility.BatchTimeSeriesInterpolator(self.t, self.v)
            self.A = [r(a["sbat"], 4, 4) + 3 * torch.eye(4) for _ in range(2)]
            self.watch = [("D", self.D), ("U", self.U), ("x0", self.xs[0]), ("x1", self.xs[1]), ("t", self.t), ("v", self.v), ("A0", self.A[0]), ("A1", self.A[1])]


def cot(y, seed):
    g = torch.Generator().manual_seed(seed)
    return (torch.rand(y.shape, generator=g) * 2 - 1) / (y.detach().abs().amax(dim=(0, 1), keepdim=True) + 1e-3)


def run_op(S, op):
    """One operation of one thread; returns a list of tensors."""
    from pyoptmat import chunktime, ode, solvers

    c, k = S.c, op[0]
    if k in ("ode", "odegrad"):
        fn = ode.odeint_adjoint if op[1] else ode.odeint
        sol = c["sols"][op[2]]
        kw = dict(sol["kw"])
        if k == "ode":
            with torch.no_grad():
                return [fn(S.f, S.y0[op[2]], S.times[op[2]], **kw)]
        if not op[1] and kw["linear_solve_method"] == "direct":
            kw["direct_solve_method"] = "thomas"
        y0 = S.y0[op[2]].clone().requires_grad_(True)
        y = fn(S.f, y0, S.times[op[2]], **kw)
        return [y.detach()] + list(torch.autograd.grad(y, S.ps + [y0], cot(y, op[3]), allow_unused=True))
    if k in ("solve", "grad"):
        t, T, d, con = S.data[op[2]]
        I = S.integ or S.mk()
        if op[1] == "own" and bool((con == 0).all()):
            f = lambda: I.solve_strain(t, d, T)
        elif op[1] == "own" and bool((con == 1).all()):
            f = lambda: I.solve_stress(t, d, T)
        else:
            f = lambda: I.solve_both(t, T, d, con)
        if k == "solve":
            with torch.no_grad():
                return [f()]
        y = f()
        return [y.detach()] + list(torch.autograd.grad(y, S.ps, cot(y, op[3]), allow_unused=True))
    if k in ("predict", "fit"):
        m = S.model if c["one_model"] else S.mk()
        d = S.data[op[1]]
        if k == "predict":
            with torch.no_grad():
                return [m(*d)]
        y = m(*d)
        return [y.detach()] + list(torch.autograd.grad(y, list(m.parameters()), cot(y.unsqueeze(-1), op[2]).squeeze(-1), allow_unused=True))
    if k == "convert":
        from pyoptmat import experiments

        _, cyc, typ, _ = S.data[op[1]]
        x = (torch.rand(cyc.shape, generator=torch.Generator().manual_seed(op[2])) * 100).requires_grad_(True)
        y = experiments.convert_results(x, cyc, typ)
        return [y.detach()] + list(torch.autograd.grad(y, x, cot(y.unsqueeze(-1), op[2]).squeeze(-1)))
    if k == "matvec":
        x = S.xs[op[1]]
        inv = S.cls(S.D, S.U)
        v = x
        return [S.fwd(v), inv(v), S.fwd.inverse()(v), S.fwd.to_diag().to_dense()]
    if k == "newton":
        x0 = S.xs[op[1]]
        b = torch.rand(x0.shape, generator=torch.Generator().manual_seed(op[2]))
        nb, n, s = S.D.shape[1], S.D.shape[0], S.D.shape[2]

        def RJ(x):
            v = x.reshape(nb, n, s).transpose(0, 1)
            R = S.fwd(x) + 0.1 * x**3
            J = chunktime.BidiagonalForwardOperator(S.D + torch.diag_embed(0.3 * v**2), S.U, inverse_operator=S.cls)
            return R - b, J

        return [chunktime.newton_raphson_chunk(RJ, x0, S.ctxs[op[1]])]
    if k == "interp":
        g = torch.linspace(0.01, 0.99, 7).unsqueeze(-1).expand(-1, S.t.shape[1])
        return [S.ip(g), S.ip0(g[3])]
    A = S.A[op[1]]
    b = torch.rand(A.shape[:2], generator=torch.Generator().manual_seed(op[2])) + 0.1

    def RJ(x):
        R = (A @ x.unsqueeze(-1)).squeeze(-1) + 0.05 * x**3 - b
        return R, A + torch.diag_embed(0.15 * x**2)

    return [
        solvers.newton_raphson(RJ, torch.zeros_like(b))[0],
        solvers.newton_raphson_bt(RJ, torch.zeros_like(b))[0],
        solvers.lu_gmres(A, b),
        solvers.jacobi_gmres(A, b),
        solvers.jacobi_iteration_linear_solve(A, b),
    ]


def run_thread(S, ops):
    out = []
    for op in ops:
        out.append(run_op(S, op))
    return out


def execute(c, ctx):
    base = []
    memo = {}
    for ops in c["threads"]:
        k = repr(ops)
        if k not in memo:
            # each thread alone, with objects of its own
            with env.solver_signals() as sig:
                try:
                    alone = Shared(c)
                    memo[k] = [[None if x is None else x.clone() for x in run_op(alone, op)] for op in ops]
                except Exception as e:
                    raise Violation("alone-raises", f"{ops}: {type(e).__name__}: {str(e)[:200]}")
            if sig or any(x is not None and not bool(torch.isfinite(x).all()) for r in memo[k] for x in r):
                raise Skip("not converged alone")
        base.append(memo[k])
    S = Shared(c)
    watch = env.Watch(S.watch)
    world = env.World()
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sch = env.Scheduler(
            [lambda ops=ops: run_thread(S, ops) for ops in c["threads"]],
            c["switches"],
            ops=c["ops"],
            kill=c["kill"],
            hot=c["hot"],
        )
        sch.run()
    if "data" in S.__dict__:
        ctx.sim_time += sum(float(d[0].max()) if d[0].dim() == 2 else float(d[0][0].max()) for d in S.data)
    ctx.fault("thread-switch", sch.switched)
    ctx.event("steps", sch.steps, sch.trace[:50], len(sch.trace))
    for i in sch.killed:
        ctx.fault("thread-interrupt")
    ctx.nontrivial = sch.switched > 0
    for name, a, b in sch.trace:
        ctx.reach((c["kind"], name))
    for i, (err, got, want) in enumerate(zip(sch.error, sch.result, base)):
        if i in sch.killed:
            if err is None:
                raise Violation("interrupt-swallowed", f"thread {i}: interrupt did not reach the caller")
            continue
        if err is not None:
            raise Violation("thread-raises", f"thread {i} {c['threads'][i]}: {type(err).__name__}: {str(err)[:200]}")
        for op, g, w in zip(c["threads"][i], got, want):
            for j, (x, y) in enumerate(zip(g, w)):
                if (x is None) != (y is None):
                    raise Violation("differs", f"thread {i} {op} output {j} missing")
                if x is None:
                    continue
                ctx.tensor("r", x)
                if x.shape != y.shape or env.bits(x) != env.bits(y):
                    raise Violation("differs", f"thread {i} {op} output {j} differs from the run alone")
    watch.check("input-modified", "by concurrent calls")
    world.check("settings-modified", "by concurrent calls")
    if sch.killed:
        # the survivors' objects still work afterwards
        for ops, want in zip(c["threads"][:1], base[:1]):
            again = run_thread(S, ops)
            for g, w in zip(again, want):
                for x, y in zip(g, w):
                    if x is not None and env.bits(x) != env.bits(y):
                        raise Violation("differs-later", f"{ops} differs when repeated after the threads finished")
    ctx.probe("threads", len(c["threads"]))
    ctx.probe("lines", sch.steps)
    ctx.probe("tensor-op-runs", int(c["ops"]))


def shrink(c):
    if len(c["threads"]) > 2:
        for i in range(len(c["threads"])):
            yield dict(c, threads=c["threads"][:i] + c["threads"][i + 1 :], kill=[])
    if c["kill"]:
        yield dict(c, kill=[])
    for i, ops in enumerate(c["threads"]):
        if len(ops) > 1:
            for o in ops:
                yield dict(c, threads=c["threads"][:i] + [[o]] + c["threads"][i + 1 :])
    for sw in shrink_list(c["switches"]):
        yield dict(c, switches=sw)
