"""P04: integration can be stopped and restarted at any recorded time."""
import contextlib

import torch

from sim import env, ref, zoo
from sim.core import CaseTimeout, Skip, Violation

RUNS = {"quick": 330, "thorough": 12000}
RULE = "one run = one integration stopped, crashed and restarted by a seeded schedule over a simulated checkpoint disk; distinct = distinct event-log digest (schedule, disk faults, bits of the pieces), nontrivial = at least two pieces were stitched"
TIME = "loading-history time covered, counting repeated pieces"
MEASURE = "distinct (problem kind, piece configuration, previous piece configuration, event) tuples"
REAL = ["pyoptmat.ode", "pyoptmat.chunktime", "pyoptmat.models (StrainBasedModel, StressBasedModel, BothBasedModel)", "pyoptmat.utility interpolators", "material laws", "torch.save/torch.load of checkpoints"]
STUBS = ["checkpoint disk: in-memory files with lost, torn, corrupted and failing writes", "process crash: the objects of the run are thrown away, only checksummed files survive"]
ASSUMPTIONS = [
    "material model restarts use the same interpolators of the complete loading history, as ModelIntegrator builds them",
    "pieces agree with the uninterrupted run within tolerances that follow from the solver tolerance: 1e-7 (ODEs) and 2e-6 (material models), gradients 1e-6/1e-4 and 5e-4/3e-3 (adjoint/direct)",
    "runs whose uninterrupted integration signals non-convergence are skipped",
]
CHUNK = 4


def fix_solver(s):
    if not s["adjoint"] and s["kw"]["linear_solve_method"] == "direct":
        s["kw"]["direct_solve_method"] = "thomas"
        s["kw"].pop("direct_solve_min_size", None)
    return s


def generate(rng, tier, i):
    c = {}
    method = rng.choice(["backward-euler"] * 4 + ["forward-euler"])
    if rng.random() < 0.55:
        spec = zoo.gen_net(rng) if rng.random() < 0.2 else zoo.gen_toy(rng)
        nb, n = rng.choice([1, 2, 3]), rng.randint(4, 14 if tier == "quick" else 40)
        t = zoo.gen_times(rng, n, nb)
        # the batch starts at zero, later, before zero, or every test on its own clock
        t0 = rng.choice([[0.0], [0.0], [1.5], [-2.0], [0.0, 1.5, 40.0], [2.5, 0.0, -1.0]])
        c.update(kind="toy", ode=spec, times=[[x + t0[k % len(t0)] for k, x in enumerate(r)] for r in t], y0=[[zoo.rnd(rng, 0.05, 0.9) for _ in range(spec["size"])] for _ in range(nb)])
        tol = dict(rtol=1e-12, atol=1e-12, miter=40)
    else:
        method = "backward-euler"
        W = zoo.gen_workload(rng, n=rng.randint(6, 12), light=rng.random() < 0.7)
        n = len(W["hist"][0]["times"])
        c.update(kind="model", w=W, form=rng.choice(["both", "own"]))
        tol = {k: W["solver"]["kw"][k] for k in ("rtol", "atol", "miter")}

    def sol():
        s = zoo.gen_solver(rng, n, method=method)
        s["kw"].update(tol)
        return fix_solver(s)

    c["method"] = method
    c["base"] = sol()
    c["moves"] = []
    for _ in range(rng.randint(2, 8)):
        c["moves"].append(
            {
                "len": rng.choice([1, 1, 2, 3, rng.randint(1, n)]),
                "sol": sol(),
                "crash": rng.choice([None, None, None, None, "before-save", "after-save", ["line", rng.random()], ["op", rng.random()]]),
                "disk": rng.choice(["ok", "ok", "ok", "ok", "lost", "torn", "flip", "enospc"]),
                "save": rng.choice(["last", "last", "all"]),
            }
        )
    c["last"] = sol()
    c["grad"] = rng.choice(["graph", "manual", "manual"])
    c["gseed"] = rng.randrange(10**6)
    return c


class Run:
    """One process: model, parameters, data."""

    def __init__(self, c):
        from pyoptmat import models, utility

        if c["kind"] == "toy":
            self.f = zoo.make_ode(c["ode"])
            self.ps = list(self.f.parameters())
            self.names = [f"p{i}" for i in range(len(self.ps))]
            self.times = torch.tensor(c["times"])
            self.y0 = torch.tensor(c["y0"])
            self.rate = lambda t, y: self.f(t, y)[0]
            return
        pb = zoo.PBuild("param")
        m, _ = zoo.make_model(c["w"]["model"], pb)
        self.ps, self.names = pb.leaves, pb.names
        t, T, d, con = zoo.stack_history(c["w"]["hist"])
        self.times = t
        rates = torch.cat([torch.zeros(1, t.shape[1]), (d[1:] - d[:-1]) / (t[1:] - t[:-1])])
        I = utility.ArbitraryBatchTimeSeriesInterpolator
        r, b, TT = I(t, rates), I(t, d), I(t, T)
        if c["form"] == "own" and bool((con == 0).all()):
            self.f = models.StrainBasedModel(m, r, TT)
        elif c["form"] == "own" and bool((con == 1).all()):
            self.f = models.StressBasedModel(m, r, b, TT)
        else:
            self.f = models.BothBasedModel(m, r, b, TT, con)
        self.y0 = torch.zeros(t.shape[1], m.nhist)
        self.rate = ref.both_rate_fn(m, t, T, d, con)

    def go(self, y, a, b, sol):
        """integrate from recorded time a to recorded time b"""
        from pyoptmat import ode

        fn = ode.odeint_adjoint if sol["adjoint"] else ode.odeint
        return fn(self.f, y, self.times[a : b + 1], **sol["kw"])


    def settle(self, ctx, y, a, b, sol, where):
        """go(); a piece that reports non-convergence is repeated step by step"""
        with env.solver_signals() as sig:
            piece = self.go(y, a, b, sol)
        if not sig:
            return piece, sol
        ctx.probe("piece-repeated-with-single-steps")
        s1 = dict(sol, kw=dict(sol["kw"], block_size=1, linear_solve_method="direct", direct_solve_method="thomas", guess_type="zero"))
        s1["kw"].pop("direct_solve_min_size", None)
        with env.solver_signals() as sig:
            piece = self.go(y, a, b, s1)
        if sig:
            raise Violation("restart-not-converged", f"{where}: {sig[0]}")
        return piece, s1


def cfg(s):
    return (s["adjoint"], s["kw"]["block_size"], s["kw"]["direct_solve_method"], s["kw"]["linear_solve_method"], s["kw"]["guess_type"])


def execute(c, ctx):
    # stress control: the solver's norm mixes strains (1e-3) with hardening variables (1e2)
    tolt = 1e-7 if c["kind"] == "toy" else 2e-6 if c["w"]["ctl"] == 0 else 2e-5
    with env.solver_signals() as sig:
        base = Run(c)
        try:
            with torch.no_grad():
                Y = base.go(base.y0, 0, base.times.shape[0] - 1, c["base"])
        except CaseTimeout:
            raise
        except Exception as e:
            raise Violation("uninterrupted-raises", f"{c['kind']} {c['method']} {cfg(c['base'])}: {type(e).__name__}: {str(e)[:160]}")
    if sig or not bool(torch.isfinite(Y).all()):
        raise Skip("not converged")
    try:
        dl = ref.correction(base.rate, Y, base.times, c["method"])
    except ref.RefFail as e:
        raise Skip(str(e))
    # the solver tolerance bounds absolute errors: internal variables that stay near zero may be off by all of their size
    scale = Y.abs().amax(dim=(0, 1), keepdim=True) + (1e-6 if c["kind"] == "toy" else 1e-3)
    if not (dl.abs() / scale).max().item() <= tolt:
        raise Violation("uninterrupted-wrong", f"{cfg(c['base'])} off by {(dl.abs()/scale).max().item():.1e}")
    n = base.times.shape[0] - 1
    disk = env.SimDisk(ctx, [m["disk"] for m in c["moves"]])
    run = Run(c)
    at, y = 0, run.y0
    rows = {0: Y[0]}
    stops = [0]
    prev = None
    npieces = 0
    moves = list(c["moves"])
    finals = []

    def compare(a, piece, where):
        if env.bits(piece[0]) != env.bits(y.detach()):
            raise Violation("start-not-kept", f"{where}: first recorded state is not the one handed in")
        e = ((piece.detach() - Y[a : a + piece.shape[0]]).abs() / scale[0]).max().item()
        ctx.max_err = max(ctx.max_err, e / (5 * tolt))
        if not e <= 5 * tolt:
            raise Violation("trajectory-differs", f"{where}: off by {e:.1e} of the largest value")

    def restart(reason):
        nonlocal run, at, y
        ctx.fault("crash")
        run = Run(c)
        at, y = 0, run.y0
        for name in reversed(disk.order):
            blob = disk.read(name)
            if blob is not None:
                s = env.unpack(blob)
                at, y = s["at"], s["y"]
                break
            ctx.probe("broken-checkpoint-skipped")
        ctx.event("restart", reason, at)
        while finals and finals[-1][1] > at:
            # pieces after the restart point did not survive
            a, b, s = finals.pop()
            if a < at:
                finals.append((a, at, s))

    for m in moves:
        if at >= n:
            break
        b = min(n, at + m["len"])
        where = f"{c['kind']} {c['method']} piece {at}..{b} {cfg(m['sol'])}"
        crash = m["crash"]
        tr = None
        if isinstance(crash, list):
            tr = env.LineTracer(at=1 + int(crash[1] * 60 * (b - at))) if crash[0] == "line" else env.OpTracer(at=1 + int(crash[1] * 100 * (b - at)))
        sol = m["sol"]
        try:
            with torch.no_grad(), (tr if tr is not None else contextlib.nullcontext()):
                piece, sol = run.settle(ctx, y, at, b, sol, where)
        except (env.Injected, env.InjectedError):
            restart("mid-piece")
            continue
        except Violation:
            raise
        except Exception as e:
            raise Violation("restart-raises", f"{where}: {type(e).__name__}: {str(e)[:160]}")
        compare(at, piece, where)
        ctx.sim_time += float((run.times[b] - run.times[at]).max())
        ctx.reach((c["kind"], cfg(m["sol"]), prev, str(crash)[:6]))
        prev = cfg(m["sol"])
        npieces += 1
        ctx.tensor("piece", piece, hold="piece of the run")
        for k in range(at, b + 1):
            rows[k] = piece[k - at]
        finals.append((at, b, sol))
        if crash == "before-save":
            finals.pop()
            restart("before save")
            continue
        try:
            disk.write(f"c{disk.writes}", env.pack({"at": b, "y": piece[-1].clone()}))
        except OSError:
            ctx.probe("save-failed")
        at, y = b, piece[-1]
        if crash == "after-save":
            restart("after save")
    if at < n:
        try:
            with torch.no_grad():
                piece, sol = run.settle(ctx, y, at, n, c["last"], f"last piece {at}..{n} {cfg(c['last'])}")
        except Violation:
            raise
        except Exception as e:
            raise Violation("restart-raises", f"last piece {cfg(c['last'])}: {type(e).__name__}: {str(e)[:160]}")
        compare(at, piece, f"{c['kind']} {c['method']} last piece {at}..{n} {cfg(c['last'])}")
        ctx.tensor("piece", piece, hold="piece of the run")
        finals.append((at, n, sol))
        npieces += 1
    ctx.nontrivial = npieces > 1
    ctx.probe("pieces", npieces)
    # pieces that survived form a chain from 0 to n
    chain, pos = [], 0
    for a, b, s in finals:
        if a == pos:
            chain.append((a, b, s))
            pos = b
    if pos != n:
        ctx.probe("chain-incomplete")
        return
    try:
        gradient(c, ctx, chain, Y, scale)
    except (Skip, Violation, CaseTimeout):
        raise
    except Exception as e:
        raise Violation("gradient-raises", f"{c['kind']} {c['method']} {c['grad']}: {type(e).__name__}: {str(e)[:160]}")


def gradient(c, ctx, chain, Y, scale):
    g = torch.Generator().manual_seed(c["gseed"])
    gy = (torch.rand(Y.shape, generator=g) * 2 - 1) / (scale + 1e-3)
    base = Run(c)
    try:
        gp, g0 = ref.gradients(base.rate, Y, base.times, gy, base.ps, c["method"])
    except ref.RefFail as e:
        raise Skip(str(e))
    run = Run(c)
    where = f"{c['kind']} {c['method']} {c['grad']} chain {[(a, b, cfg(s)) for a, b, s in chain]}"[:400]
    y0 = run.y0.clone().requires_grad_(True)
    if c["grad"] == "graph":
        y, loss = y0, (gy[0] * y0).sum()
        for a, b, s in chain:
            piece, _ = run.settle(ctx, y, a, b, s, where)
            loss = loss + (gy[a + 1 : b + 1] * piece[1:]).sum()
            y = piece[-1]
        got = torch.autograd.grad(loss, run.ps + [y0], allow_unused=True)
        got, go0 = list(got[:-1]), got[-1]
    else:
        # backward over saved states only, each piece in a process of its own
        lam = torch.zeros_like(y0)
        got = [torch.zeros_like(p) for p in run.ps]
        for a, b, s in reversed(chain):
            r2 = Run(c)
            ys = Y[a].clone().requires_grad_(True)
            piece, _ = r2.settle(ctx, ys, a, b, s, where)
            cot = torch.cat([torch.zeros_like(gy[:1]), gy[a + 1 : b + 1]])
            cot[-1] = cot[-1] + lam
            out = torch.autograd.grad(piece, r2.ps + [ys], cot, allow_unused=True)
            got = [x if o is None else x + o for x, o in zip(got, out[:-1])]
            lam = out[-1]
        go0 = lam + gy[0]
    adj = all(s["adjoint"] for _, _, s in chain)
    tol = (1e-6 if adj else 1e-4) if c["kind"] == "toy" else (5e-4 if adj else 1e-2)
    if c["kind"] != "toy" and c["w"]["ctl"] != 0:
        tol = 5e-3  # see P03: rate inversion of stress control
    want, ps = gp + [g0], [p.detach() for p in run.ps] + [y0.detach()]
    S = max([(w * p).abs().max().item() for w, p in zip(gp, run.ps)] + [1e-30])
    for nm, x, w, p in zip(run.names + ["y0"], got + [go0], want, ps):
        x = torch.zeros_like(w) if x is None else x
        if not bool(torch.isfinite(x).all()):
            raise Violation("gradient-differs", f"{nm} not finite: {where}")
        if nm == "y0":
            e = (x - w).abs().max().item() / (w.abs().max().item() + 1e-9)
        else:
            e = ((x - w) * p).abs().max().item() / ((w * p).abs().max().item() + 1e-2 * S + 1e-4)
        ctx.max_err = max(ctx.max_err, e / tol)
        if not e <= tol:
            raise Violation("gradient-differs", f"{nm} off by {e:.1e}: {where}")
        ctx.tensor("g", x)
    ctx.probe("chained-gradients")


def shrink(c):
    for k in range(len(c["moves"])):
        yield dict(c, moves=c["moves"][:k] + c["moves"][k + 1 :])
    for k, m in enumerate(c["moves"]):
        for over in ({"crash": None}, {"disk": "ok"}, {"len": 1}, {"sol": c["base"]}):
            if any(m[q] != v for q, v in over.items()):
                yield dict(c, moves=c["moves"][:k] + [dict(m, **over)] + c["moves"][k + 1 :])
    if c["last"] != c["base"]:
        yield dict(c, last=c["base"])
    if c["kind"] == "toy":
        for b in range(len(c["y0"])):
            if len(c["y0"]) > 1:
                yield dict(c, y0=[c["y0"][b]], times=[[r[b]] for r in c["times"]])
        if len(c["times"]) > 3:
            yield dict(c, times=c["times"][: len(c["times"]) // 2 + 1])
            yield dict(c, times=c["times"][:-1])
    elif len(c["w"]["hist"]) > 1:
        for b in range(len(c["w"]["hist"])):
            yield dict(c, w=dict(c["w"], hist=[c["w"]["hist"][b]]))
