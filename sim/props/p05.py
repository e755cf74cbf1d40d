"""P05: a failed nonlinear solve is never silent and always terminates."""
import math

import torch

from sim import env, ref, zoo
from sim.core import CaseTimeout, Skip, Violation, shrink_list

RUNS = {"quick": 900, "thorough": 40000}
RULE = "one run = one nonlinear solve or integration under one seeded schedule of faults in the user's equations, once with warnings, once with errors requested where that exists, and once more when the faults are over; distinct = distinct event-log digest (faults that fired, signals, result bits), nontrivial = at least one fault fired or the system has no solution"
TIME = "evaluations of the user's equations are the clock; the iteration limit is the deadline"
MEASURE = "distinct (solver, kind of fault, signalled or recovered, member hit) tuples"
REAL = ["pyoptmat.chunktime.newton_raphson_chunk and operators", "pyoptmat.solvers", "pyoptmat.ode", "pyoptmat.models (strain, stress and mixed control)"]
STUBS = ["user equations written in the harness wrap the real constitutive models and inject the faults"]
ASSUMPTIONS = [
    "faults in residuals make them larger or non-finite, never smaller (a user function that returns too small a residual cannot be detected by any solver)",
    "tolerance met = every member's residual norm (per block of time steps) at the returned point is below max(atol, rtol x the member's first residual norm), with the residual re-evaluated without faults",
    "for constitutive models the returned trajectory is checked against the reference of P03/P04 instead",
    "an exception raised by torch itself (singular factorisation) counts as a signal",
]
CHUNK = 8

RF = ["nan", "inf", "huge"]
JF = ["zero", "row", "nan", "inf", "scale-", "scale+", "stuck", "stuck", "flip", "noise"]


def gen_fault(rng, nb, span, model):
    part = rng.choice(["R", "R", "J"])
    if part == "R":
        what = rng.choice(["nan", "nan", "inf"] if model else RF)
    else:
        what = rng.choice(JF)
    if what == "stuck" and rng.random() < 0.7:
        # for everybody and for good
        return {"part": part, "what": what, "at": rng.choice([0, 0, 1, 2]), "n": 10**6, "m": -1, "seed": 0}
    return {
        "part": part,
        "what": what,
        "at": rng.choice([0, 1, 1, 2, rng.randrange(span), rng.randrange(span)]),
        "n": rng.choice([1, 1, 1, 2, 3, 10**6]),
        "m": rng.choice([-1] + list(range(nb)) * 2),
        "seed": rng.randrange(10**6),
    }


def generate(rng, tier, i):
    kind = rng.choice(["alg", "alg", "alg", "toy", "toy", "model"])
    c = {"kind": kind, "miter": rng.choice([0, 1, 2, 3, 5, 8, 12, 30])}
    if kind == "alg":
        nb = rng.choice([1, 2, 3, 4])
        c.update(
            which=rng.choice(["nr", "nr-diag", "nrbt", "chunk", "chunk", "reuse"]),
            nb=nb,
            size=rng.choice([1, 2, 3, 4, 6]),
            nblk=rng.choice([1, 2, 3, 5]),
            direct=rng.choice(["thomas", "pcr", "hybrid"]),
            linear=rng.choice(["direct", "dense"]),
            rtol=rng.choice([1e-6, 1e-9, 1e-12, 0.0]),
            atol=rng.choice([1e-6, 1e-9, 1e-11]),
            hard=rng.choice([0.0, 0.0, 0.3, 2.0]),
            noroot=rng.choice([-1, -1, -1, rng.randrange(nb)]),
            start=rng.choice([0.0, 0.05, 3.0]),
        )
        if c["which"] != "reuse" and rng.random() < 0.35:
            # members of very different size, one of which converges slowly
            c["rtol"] = rng.choice([1e-6, 1e-8])
            c["scale"] = [rng.choice([0, 0, rng.randint(-6, 8)]) for _ in range(nb)]
            c["slow"] = [rng.choice([-1, rng.randrange(nb)]), rng.choice([2, 3, 4])]
            c["miter"] = rng.choice([c["miter"], 30, 60])
        if c["which"] == "reuse":
            # its linear solves are only good to 1e-10
            c["atol"] = max(c["atol"], 1e-8)
        c["faults"] = [gen_fault(rng, nb, 6, False) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
    elif kind == "toy":
        spec = zoo.gen_net(rng) if rng.random() < 0.2 else zoo.gen_toy(rng)
        nb, n = rng.choice([1, 2, 3]), rng.randint(3, 9)
        s = zoo.gen_solver(rng, n)
        s["kw"].update(rtol=rng.choice([1e-9, 1e-12]), atol=rng.choice([1e-7, 1e-9]))
        c.update(ode=spec, times=zoo.gen_times(rng, n, nb), y0=[[zoo.rnd(rng, 0.05, 0.9) for _ in range(spec["size"])] for _ in range(nb)], sol=s)
        c["faults"] = [gen_fault(rng, nb, 20, False) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
    else:
        c["w"] = zoo.gen_workload(rng, n=rng.randint(4, 6), nb=rng.choice([1, 2, 3]), light=True)
        c["miter"] = rng.choice([2, 5, 12, 40, 60])
        c["own"] = rng.random() < 0.6
        c["faults"] = [gen_fault(rng, len(c["w"]["hist"]), rng.choice([6, 30, 120]), True) for _ in range(rng.choice([1, 1, 2]))]
    return c


# ----------------------------------------------------------------------- faults
class Enough(BaseException):
    """more evaluations than the iteration limit allows"""


class Faults:
    """Applies the scheduled faults; counts evaluations."""

    def __init__(self, spec):
        self.spec = spec
        self.on = True
        self.reset()

    def reset(self):
        self.n = 0
        self.max = getattr(self, "keep", None)
        self.fired = []
        self.big = 0.0  # largest finite residual/rate handed out

    def mask(self, x, f):
        """x is (..., nb, extra dims of one member)"""
        m = torch.zeros(self.nb, dtype=torch.bool)
        if f["m"] < 0:
            m[:] = True
        else:
            m[f["m"] % self.nb] = True
        return m

    def __call__(self, R, J, rdims, jdims):
        """rdims/jdims: number of dimensions after the batch dimension"""
        k = self.n
        self.n += 1
        if self.max is not None and self.n > self.max:
            raise Enough()
        if self.on:
            for f in self.spec:
                if not f["at"] <= k < f["at"] + f["n"]:
                    continue
                self.fired.append((f["part"], f["what"]))
                X, d = (R, rdims) if f["part"] == "R" else (J, jdims)
                m = self.mask(X, f).reshape((self.nb,) + (1,) * d)
                g = torch.Generator().manual_seed(f["seed"] + k)
                w = f["what"]
                if w == "nan":
                    Y = torch.full_like(X, float("nan"))
                elif w == "inf":
                    Y = torch.full_like(X, float("inf"))
                elif w == "huge":
                    # another value at every evaluation, so that no point solves the faulty equations
                    Y = X + 1e8 * (1 + X.abs()) * (0.5 + torch.rand(1, generator=g))
                elif w == "zero":
                    Y = torch.zeros_like(X)
                elif w == "row":
                    Y = X.clone()
                    Y[..., -1, :] = 0.0
                elif w == "scale-":
                    Y = X * 1e-3
                elif w == "scale+":
                    Y = X * 30.0
                elif w == "stuck":
                    # the iteration does not move any more
                    Y = X * 1e15
                elif w == "flip":
                    Y = -X
                else:
                    Y = X + 0.3 * (X.abs().max() + 0.1) * (torch.rand(X.shape, generator=g) - 0.5)
                X = torch.where(m, Y, X)
                if f["part"] == "R":
                    R = X
                else:
                    J = X
        fin = R.detach()[torch.isfinite(R.detach())]
        if fin.numel():
            self.big = max(self.big, fin.abs().max().item())
        return R, J


# -------------------------------------------------------------------- algebraic
class Alg:
    def __init__(self, c):
        from pyoptmat import chunktime

        self.c = c
        chunk = c["which"] == "chunk"
        self.n, self.nb = c["size"], c["nb"]
        self.nblk = c["nblk"] if chunk else 1
        g = torch.Generator().manual_seed(c["seed"])
        n, nb, K = self.n, self.nb, self.nblk
        self.A = 0.3 * torch.rand(K, nb, n, n, generator=g) + torch.diag_embed(2 + torch.rand(K, nb, n, generator=g))
        if c["which"] == "nr-diag":
            self.A = torch.diag_embed(2 + torch.rand(K, nb, n, generator=g))
        self.B = -0.5 * torch.rand(K - 1, nb, n, n, generator=g)
        self.b = torch.rand(K, nb, n, generator=g) + 0.5
        self.scale = 10.0 ** torch.tensor(c.get("scale", [0] * nb), dtype=torch.float64)
        if c["noroot"] >= 0:
            # its other equations must not loosen the relative tolerance
            self.scale[c["noroot"]] = 1.0
        self.slow, self.power = c.get("slow", [-1, 2])
        if self.slow == c["noroot"]:
            self.slow = -1
        if self.slow >= 0:
            self.B[:, self.slow] = 0.0
        self.A, self.b = self.A * self.scale[:, None, None], self.b * self.scale[:, None]
        self.B = self.B * self.scale[:, None, None]
        self.x0 = c["start"] * torch.ones(nb, K * n)
        self.F = Faults(c["faults"])
        self.F.nb = nb
        cls = {
            "thomas": chunktime.BidiagonalThomasFactorization,
            "pcr": chunktime.BidiagonalPCRFactorization,
            "hybrid": lambda A, B: chunktime.BidiagonalHybridFactorization(A, B, min_size=1),
        }[c["direct"]]
        self.op = lambda D: chunktime.BidiagonalForwardOperator(D, self.B, inverse_operator=cls)
        self.reuse = None

    def clean(self, x):
        K, nb, n = self.nblk, self.nb, self.n
        v = x.reshape(nb, K, n).transpose(0, 1)
        h = self.c["hard"]
        R = (self.A @ v.unsqueeze(-1)).squeeze(-1) + h * self.scale[:, None] * v**3 - self.b
        R[1:] = R[1:] + (self.B @ v[:-1].unsqueeze(-1)).squeeze(-1)
        D = self.A + torch.diag_embed(3 * h * self.scale[:, None] * v**2)
        if self.slow >= 0:
            # a multiple root
            m, p = self.slow, self.power
            e = v[:, m] - self.b[:, m] / self.scale[m]
            R = R.clone()
            R[:, m] = self.scale[m] * e.sign() * e.abs() ** p
            D = D.clone()
            D[:, m] = torch.diag_embed(self.scale[m] * p * e.abs() ** (p - 1))
        if self.c["noroot"] >= 0:
            m = self.c["noroot"]
            R[:, m, 0] = 1.0 + v[:, m, 0] ** 2
            D = D.clone()
            D[:, m, 0, :] = 0.0
            D[:, m, 0, 0] = 2 * v[:, m, 0]
            if K > 1:
                R[1:, m, 0] = R[1:, m, 0] + (self.B[:, m, 0] * v[:-1, m]).sum(-1)
        return R, D

    def fn(self, x):
        R, D = self.clean(x)
        R, D = self.F(R, D, 1, 2)
        R = R.transpose(0, 1).flatten(start_dim=1)
        if self.c["which"] == "chunk":
            if self.F.n == 1:
                self.first = torch.norm(R, dim=-1)
            return R, self.op(D)
        if self.F.n == 1:
            self.first = torch.norm(R, dim=-1)
        return R, D[0]

    def solve(self, throw, **over):
        from pyoptmat import chunktime, solvers

        c = self.c
        kw = dict(rtol=c["rtol"], atol=c["atol"], miter=c["miter"])
        kw.update(over)
        w = c["which"]
        self.F.reset()
        if w == "nr":
            return solvers.newton_raphson(self.fn, self.x0, **kw)[0]
        if w == "nr-diag":
            return solvers.newton_raphson(self.fn, self.x0, linsolver="diag", **kw)[0]
        if w == "nrbt":
            return solvers.newton_raphson_bt(self.fn, self.x0, **kw)[0]
        if w == "reuse":
            if self.reuse is None:
                self.reuse = solvers.PreconditionerReuseNonlinearSolver()
            return self.reuse.solve(self.fn, self.x0, **kw)[0]
        s = chunktime.ChunkTimeOperatorSolverContext(c["linear"])
        return chunktime.newton_raphson_chunk(self.fn, self.x0, s, throw_on_fail=throw, **kw)

    def limit(self, miter):
        if self.c["which"] == "nrbt":
            return 1 + miter * 7
        return 1 + miter

    def verify(self, x, where):
        """every member's residual at the returned point meets the tolerance"""
        R, _ = self.clean(x)
        nR = torch.norm(R.transpose(0, 1).flatten(start_dim=1), dim=-1)
        tol = torch.clamp(self.c["rtol"] * torch.nan_to_num(self.first, nan=0.0, posinf=0.0), min=self.c["atol"]) * (1 + 1e-6) + 1e-13
        bad = ~(nR <= tol)
        if bool(bad.any()):
            m = int(bad.nonzero()[0])
            raise Violation("silent-failure", f"{where}: no signal but member {m} has residual {nR[m].item():.2e} > {tol[m].item():.2e}")


class ODE:
    def __init__(self, c):
        self.c = c
        self.F = Faults(c["faults"])
        self.base = zoo.make_ode(c["ode"])
        self.times = torch.tensor(c["times"])
        self.y0 = torch.tensor(c["y0"])
        self.F.nb = self.y0.shape[0]
        outer = self

        class User(torch.nn.Module):
            def forward(self, t, y):
                f, J = outer.base(t, y)
                return outer.F(f, J, 1, 2)

        self.user = User()

    def solve(self, throw, **over):
        from pyoptmat import ode

        self.F.reset()
        kw = dict(self.c["sol"]["kw"], miter=self.c["miter"], throw_on_fail=throw)
        kw.update(over)
        fn = ode.odeint_adjoint if self.c["sol"]["adjoint"] else ode.odeint
        with torch.no_grad():
            return fn(self.user, self.y0, self.times, **kw)

    @property
    def nblocks(self):
        return math.ceil((self.times.shape[0] - 1) / self.c["sol"]["kw"]["block_size"])

    def limit(self, miter):
        return self.nblocks * (1 + miter)

    def verify(self, y, where):
        kw = self.c["sol"]["kw"]
        if not torch.isfinite(y).all():
            raise Violation("silent-failure", f"{where}: no signal but values are not finite")
        with torch.no_grad():
            R = ref.residual(lambda t, x: self.base(t, x)[0], y, self.times, kw["method"])
        b = kw["block_size"]
        dt = self.times.diff(dim=0)
        for k in range(0, R.shape[0], b):
            nR = R[k : k + b].transpose(0, 1).flatten(start_dim=1).norm(dim=-1)
            cnt = R[k : k + b].numel() ** 0.5
            first = cnt * (self.F.big * dt.max().item() + 4 * y.abs().max().item() + 1.0)
            tol = max(kw["atol"], kw["rtol"] * first) * (1 + 1e-6) + 1e-12 * cnt * (1 + y.abs().max().item())
            if not bool((nR <= tol).all()):
                raise Violation("silent-failure", f"{where}: no signal but block at {k} has residual {nR.max().item():.2e} > {tol:.2e}")


class Model:
    def __init__(self, c):
        from pyoptmat import models

        self.c = c
        self.F = Faults(c["faults"])
        w = c["w"]
        self.m, self.pb = zoo.make_model(w["model"], zoo.PBuild("param"))
        self.data = zoo.stack_history(w["hist"])
        self.F.nb = len(w["hist"])
        self.strain = c.get("own") and not any(h["control"] for h in w["hist"])
        outer = self

        class User(torch.nn.Module):
            nhist = outer.m.nhist

            def forward(self, t, y, e, T):
                yd, J, Je, JT = outer.m(t, y, e, T)
                yd, J = outer.F(yd, J, 1, 2)
                return yd, J, Je, JT

        self.user = User()

    def solve(self, throw, **over):
        from pyoptmat import models

        self.F.reset()
        kw = dict(self.c["w"]["solver"]["kw"], miter=self.c["miter"], throw_on_fail=throw)
        kw.update(over)
        t, T, d, con = self.data
        with torch.no_grad():
            integ = models.ModelIntegrator(self.user, use_adjoint=self.c["w"]["solver"]["adjoint"], **kw)
            return integ.solve_strain(t, d, T) if self.strain else integ.solve_both(t, T, d, con)

    def limit(self, miter):
        nbl = math.ceil((self.data[0].shape[0] - 1) / self.c["w"]["solver"]["kw"]["block_size"])
        # mixed control evaluates both forms; the stress form inverts the rate with up to 100 iterations
        return nbl * (1 + miter) * 103

    def verify(self, y, where):
        if not torch.isfinite(y).all():
            raise Violation("silent-failure", f"{where}: no signal but values are not finite")
        t, T, d, con = self.data
        rate = ref.both_rate_fn(self.m, t, T, d, con)
        try:
            dl = ref.correction(rate, y, t, "backward-euler")
        except ref.RefFail:
            return
        sc = y.abs().amax(dim=(0, 1), keepdim=True) + 1e-3
        e = (dl.abs() / sc).max().item()
        if not e <= 5e-6:
            raise Violation("silent-failure", f"{where}: no signal but the trajectory is off by {e:.1e}")


KINDS = {"alg": Alg, "toy": ODE, "model": Model}


def run(S, throw, **over):
    """(result or None, signalled, exception)"""
    with env.solver_signals() as sig:
        try:
            S.F.keep = S.limit(over.get("miter", S.c["miter"]))
            x, err = S.solve(throw, **over), None
        except CaseTimeout:
            raise
        except Enough:
            raise Violation("too-many-evaluations", f"{S.c.get('which', S.c['kind'])} miter={over.get('miter', S.c['miter'])} {S.c['faults']}: {S.F.n} > {S.F.max}")
        except Exception as e:
            x, err = None, e
    return x, bool(sig), err


def execute(c, ctx):
    name = c.get("which", c["kind"])
    S = KINDS[c["kind"]](c)
    good = 60
    # without faults, with a generous iteration limit: the solve succeeds
    S.F.on = False
    clean, sig, err = run(S, False, miter=good)
    solvable = not (c["kind"] == "alg" and c["noroot"] >= 0)
    if err is not None and solvable:
        raise Violation("clean-raises", f"{name}: {type(err).__name__}: {str(err)[:200]}")
    if solvable and sig:
        raise Skip("not converged without faults")
    if not solvable and not sig and err is None:
        raise Violation("silent-failure", f"{name}: a system without solution was solved without a signal")
    if S.F.n > S.limit(good):
        raise Violation("too-many-evaluations", f"{name}: {S.F.n} > {S.limit(good)} without faults")
    # with the faults
    S = KINDS[c["kind"]](c)
    where = f"{name} miter={c['miter']} {[(f['part'], f['what'], f['at'], f['n'], f['m']) for f in c['faults']]}"
    x, sig, err = run(S, False)
    n = S.F.n
    fired = list(S.F.fired)
    for p, w in set(fired):
        ctx.fault(f"{p}-{w}", sum(1 for f in fired if f == (p, w)))
    ctx.event(n, sig, type(err).__name__)
    ctx.nontrivial = bool(fired) or not solvable
    ctx.sim_time += n
    if n > S.limit(c["miter"]):
        raise Violation("too-many-evaluations", f"{where}: {n} > {S.limit(c['miter'])}")
    if err is None:
        ctx.tensor("x", x)
        if not sig:
            S.verify(x, where)
            ctx.probe("solved-under-faults" if fired else "solved")
        else:
            ctx.probe("warned")
    else:
        if not fired and solvable:
            raise Violation("raises", f"{where}: {type(err).__name__}: {str(err)[:200]}")
        ctx.probe("raised-by-torch")
    out = "solved" if not sig and err is None else "signalled"
    for f in c["faults"]:
        ctx.reach((name, f["part"], f["what"], out, f["m"] >= 0))
    if not c["faults"]:
        ctx.reach((name, out, c["miter"]))
    # the same with errors requested
    if c["kind"] != "alg" or c["which"] == "chunk":
        S = KINDS[c["kind"]](c)
        x2, sig2, err2 = run(S, True)
        if S.F.n > S.limit(c["miter"]):
            raise Violation("too-many-evaluations", f"{where} (errors requested): {S.F.n}")
        # the rate inversion inside stress control only warns
        inner = c["kind"] == "model" and not S.strain
        if err is None and sig and err2 is None and not (inner and sig2):
            raise Violation("error-not-raised", f"{where}: an error was requested but the failed solve returned")
        if err is None and not sig:
            if err2 is not None:
                raise Violation("spurious-error", f"{where}: {type(err2).__name__}: {str(err2)[:120]}")
            if env.bits(x2) != env.bits(x):
                raise Violation("throw-changes-result", where)
        if err2 is None and not sig2:
            S.verify(x2, where + " (errors requested)")
        ctx.probe("errors-requested")
    # faults are over: the same objects work
    if solvable:
        S.F.on = False
        again, sig3, err3 = run(S, False, miter=good)
        if err3 is not None:
            raise Violation("no-recovery", f"{where}: then {type(err3).__name__}: {str(err3)[:150]}")
        if sig3:
            raise Violation("no-recovery", f"{where}: still not converged after the faults stopped")
        if not torch.allclose(again, clean, rtol=1e-5, atol=1e-5 * (1 + clean.abs().max().item())):
            raise Violation("no-recovery", f"{where}: another result after the faults stopped")
        if not (c["kind"] == "alg" and c["which"] == "reuse") and env.bits(again) != env.bits(clean):
            raise Violation("no-recovery", f"{where}: not the same result after the faults stopped")


def shrink(c):
    for f in shrink_list(c["faults"]):
        yield dict(c, faults=f)
    for i, f in enumerate(c["faults"]):
        if f["n"] > 1:
            yield dict(c, faults=c["faults"][:i] + [dict(f, n=1)] + c["faults"][i + 1 :])
        if f["at"] > 0:
            yield dict(c, faults=c["faults"][:i] + [dict(f, at=f["at"] // 2)] + c["faults"][i + 1 :])
    if c["kind"] == "alg":
        if c["nb"] > 1 and c["noroot"] < 0:
            yield dict(c, nb=c["nb"] - 1)
        if c["size"] > 1:
            yield dict(c, size=c["size"] - 1)
        if c["nblk"] > 1:
            yield dict(c, nblk=c["nblk"] - 1)
    elif c["kind"] == "toy":
        if len(c["y0"]) > 1:
            yield dict(c, y0=c["y0"][:1], times=[r[:1] for r in c["times"]])
        if len(c["times"]) > 3:
            yield dict(c, times=c["times"][:-1])
    elif len(c["w"]["hist"]) > 1:
        for h in c["w"]["hist"]:
            yield dict(c, w=dict(c["w"], hist=[h]))
