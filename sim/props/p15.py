"""P15: time-parallel integration gives the sequential solution."""
import torch

from sim import core, env, ref, zoo
from sim.core import CaseTimeout, Skip, Violation, shrink_list

RUNS = {"quick": 420, "thorough": 16000}
RULE = "one run = one problem integrated several times under different block schedules and solver settings while transient faults hit chosen evaluations; distinct = distinct event-log digest (faults met and bits of the trajectories), nontrivial = at least one block of several steps was checked against the sequential recursion"
TIME = "loading-history time integrated"
MEASURE = "distinct (problem kind, entry, scheme, differentiation, linear solver, guess, block class, fault kind, outcome) tuples"
REAL = ["pyoptmat.ode", "pyoptmat.chunktime", "pyoptmat.models (all three entries of ModelIntegrator)", "pyoptmat.solvers (rate inversion of stress control)", "pyoptmat.utility interpolators", "material laws", "pyoptmat.neuralode"]
STUBS = ["user equations: harness ODEs, or real models behind a wrapper that disturbs chosen evaluations"]
ASSUMPTIONS = [
    "reference: the Newton correction of the whole trajectory computed step after step with automatic differentiation of the rate equations only (sim/ref.py)",
    "disturbances are wrong Jacobians, non-finite values and exceptions; plausible but wrong rates are the equations themselves and are not injected",
    "integrations that give a warning or an error are not judged here unless no disturbance was injected and single steps converge (progress)",
]
CHUNK = 6

JKINDS = ["J-scale", "J-scale", "J-noise", "J-zero", "J-flip", "J-nan", "R-nan", "raise"]


# ------------------------------------------------------------------- generation
def uneven(rng, n, nb, far):
    """time grids with steps of very different lengths"""
    cols = []
    for _ in range(nb):
        t, col = rng.choice([0.0, 0.0, -2.0, 1.5, 100.0]) if far else 0.0, []
        for k in range(n):
            col.append(float(f"{t:.12g}"))
            t += 10 ** rng.uniform(-4, -0.3)
        cols.append(col)
    return [[cols[b][i] for b in range(nb)] for i in range(n)]


def generate(rng, tier, i):
    big = tier == "thorough"
    method = rng.choice(["backward-euler"] * 4 + ["forward-euler"])
    if rng.random() < 0.6:
        spec = zoo.gen_net(rng) if rng.random() < 0.15 else zoo.gen_toy(rng)
        nb = rng.choice([1, 2, 3, 4, 7])
        n = rng.randint(2, 26 if not big else 80)
        times = zoo.gen_times(rng, n, nb) if rng.random() < 0.5 else uneven(rng, n, nb, True)
        if rng.random() < 0.3 and nb > 1:
            times = [[r[0]] * nb for r in times]
        elif rng.random() < 0.2 and nb > 1:
            f = [1.0] + [1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-6, -2.5) for _ in range(nb - 1)]
            times = [[r[0] * x for x in f] for r in times]
        if rng.random() < 0.15:
            b, k = rng.randrange(nb), rng.randrange(1, n)
            times[k][b] = times[k - 1][b]
        c = {"kind": "toy", "ode": spec, "times": times, "y0": [[zoo.rnd(rng, 0.05, 0.9) for _ in range(spec["size"])] for _ in range(nb)]}
        tol = dict(rtol=1e-11, atol=1e-12, miter=40)
    else:
        method = "backward-euler"
        W = zoo.gen_workload(rng, n=rng.randint(4, 12 if not big else 30), light=rng.random() < 0.6)
        n = len(W["hist"][0]["times"])
        c = {"kind": "model", "w": W}
        tol = {k: W["solver"]["kw"][k] for k in ("rtol", "atol", "miter")}
    c["method"] = method
    c["goes"] = []
    for _ in range(rng.randint(1, 3)):
        s = zoo.gen_solver(rng, n, method=method)
        s["kw"].update(tol)
        if s["kw"]["direct_solve_method"] == "hybrid":
            s["kw"]["direct_solve_min_size"] = rng.choice([0, 1, 2, 3, 4, 6])
        if not s["adjoint"] and s["kw"]["linear_solve_method"] == "direct" and rng.random() < 0.5:
            s["nograd"] = True
        f = []
        if rng.random() < 0.5:
            for _ in range(rng.choice([1, 1, 2, 3])):
                f.append({"k": rng.choice(JKINDS), "at": rng.choice([0, 0, 1, 2, rng.randint(0, 12)]), "n": rng.choice([1, 1, 1, 2]), "m": rng.choice([-1, 0, 1, 2]), "x": rng.randrange(1000)})
        entry = rng.choice(["both", "own"])
        if c["kind"] == "model":
            s["kw"]["miter"] = 30
            if W["model"]["flow"]["k"] in ("km", "ri", "softkm"):
                # the mixed form also inverts the rate of strain controlled tests, at great cost
                entry = "own"
        c["goes"].append({"sol": s, "faults": f, "entry": entry})
    return c


# -------------------------------------------------------------------- execution
class Faulty(torch.nn.Module):
    """The user's equations; some evaluations go wrong."""

    def __init__(self, f, faults, ctx):
        super().__init__()
        self.f = f
        self.nhist = getattr(f, "nhist", None)
        self.faults = faults
        self.count = 0
        self.fired = []

    def forward(self, *a):
        out = list(self.f(*a))
        k = self.count
        self.count += 1
        for x in self.faults:
            if not x["at"] <= k < x["at"] + x["n"]:
                continue
            self.fired.append(x["k"])
            if x["k"] == "raise":
                raise MemoryError("injected")
            r = out[0].clone()
            J = out[1].clone()
            nb = r.shape[-2]
            sel = slice(None) if x["m"] < 0 else slice(x["m"] % nb, x["m"] % nb + 1)
            if x["k"] == "R-nan":
                r[..., sel, :] = float("nan")
            elif x["k"] == "J-nan":
                J[..., sel, :, :] = float("nan")
            elif x["k"] == "J-zero":
                J[..., sel, :, :] = 0.0
            elif x["k"] == "J-flip":
                J[..., sel, :, :] = -J[..., sel, :, :]
            elif x["k"] == "J-scale":
                J[..., sel, :, :] = J[..., sel, :, :] * (0.5 + x["x"] / 1000.0)
            else:
                g = torch.Generator().manual_seed(x["x"])
                J[..., sel, :, :] = J[..., sel, :, :] * (0.8 + 0.4 * torch.rand(J[..., sel, :, :].shape, generator=g))
            out[0], out[1] = r, J
        return tuple(out)


class Setup:
    def __init__(self, c):
        self.c = c
        if c["kind"] == "toy":
            self.f = zoo.make_ode(c["ode"])
            self.times = torch.tensor(c["times"])
            self.y0 = torch.tensor(c["y0"])
            self.rate = lambda t, y: self.f(t, y)[0]
            return
        self.m, _ = zoo.make_model(c["w"]["model"], zoo.PBuild("param"))
        self.data = zoo.stack_history(c["w"]["hist"])
        self.times = self.data[0]
        t, T, d, con = self.data
        self.y0 = None
        self.rate = ref.both_rate_fn(self.m, t, T, d, con)

    def go(self, sol, faults, entry, ctx):
        from pyoptmat import models, ode

        kw = sol["kw"]
        if self.c["kind"] == "toy":
            F = Faulty(self.f, faults, ctx)
            fn = ode.odeint_adjoint if sol["adjoint"] else ode.odeint
            return F, lambda: fn(F, self.y0, self.times, **kw)
        F = Faulty(self.m, faults, ctx)
        I = models.ModelIntegrator(F, use_adjoint=sol["adjoint"], **kw)
        t, T, d, con = self.data
        if entry == "own" and bool((con == 0).all()):
            return F, lambda: I.solve_strain(t, d, T)
        if entry == "own" and bool((con == 1).all()):
            return F, lambda: I.solve_stress(t, d, T)
        return F, lambda: I.solve_both(t, T, d, con)


def attempt(fn, nograd):
    with env.solver_signals() as sig:
        try:
            if nograd:
                with torch.no_grad():
                    y = fn()
            else:
                y = fn()
            err = None
        except (CaseTimeout, Violation):
            raise
        except Exception as e:
            y, err = None, e
    return y, (sig[0] if sig else None), err


def safe(sol):
    kw = dict(sol["kw"], block_size=1, linear_solve_method="direct", direct_solve_method="thomas", guess_type="zero")
    kw.pop("direct_solve_min_size", None)
    return {"adjoint": sol["adjoint"], "kw": kw}


def execute(c, ctx):
    S = Setup(c)
    watch = env.Watch([("times", S.times)] + ([("y0", S.y0)] if S.y0 is not None else []))
    ctx.nontrivial = False
    for g in c["goes"]:
        sol, kw = g["sol"], g["sol"]["kw"]
        n = S.times.shape[0]
        where = f"{c['kind']} {c['method']} {'adjoint' if sol['adjoint'] else 'direct'} {kw['linear_solve_method']}/{kw['direct_solve_method']} block {kw['block_size']} of {n - 1} {kw['guess_type']} {g['entry']}"
        F, fn = S.go(sol, g["faults"], g["entry"], ctx)
        y, sig, err = attempt(fn, sol.get("nograd"))
        for k in F.fired:
            ctx.fault(k)
        size = "one" if kw["block_size"] == 1 else "all" if kw["block_size"] >= n - 1 else "even" if (n - 1) % kw["block_size"] == 0 else "ragged"
        state = (c["kind"], g["entry"], c["method"], sol["adjoint"], kw["linear_solve_method"], kw["direct_solve_method"], kw["guess_type"], size, tuple(sorted(set(F.fired))))
        if F.fired:
            where += " after " + ",".join(sorted(set(F.fired)))
        watch.check("input-modified", where)
        if err is not None and "raise" not in F.fired and not F.fired:
            raise Violation("clean-raises", f"{where}: {type(err).__name__}: {str(err)[:160]}")
        if err is not None or sig:
            ctx.reach(state + ("error" if err is not None else "signal",))
            ctx.event("stopped", type(err).__name__, bool(sig))
            ctx.probe("signalled-after-fault" if F.fired else "signalled-without-fault")
            # progress: without the fault, at the latest with single steps, it is solved
            F, fn = S.go(sol, [], g["entry"], ctx)
            y, sig, err = attempt(fn, sol.get("nograd"))
            if err is not None:
                raise Violation("clean-raises", f"{where}: {type(err).__name__}: {str(err)[:160]}")
            if sig:
                F, fn = S.go(safe(sol), [], g["entry"], ctx)
                y, sig, err = attempt(fn, True)
                if err is not None:
                    raise Violation("clean-raises", f"{where} single steps: {type(err).__name__}: {str(err)[:160]}")
                if sig:
                    ctx.probe("single-steps-do-not-converge")
                    continue
                where += " single steps"
        check(c, S, y, F, ctx, where, kw["block_size"])
        ctx.reach(state + ("solved",))


def check(c, S, y, F, ctx, where, block):
    t = S.times
    if tuple(y.shape[:2]) != tuple(t.shape):
        raise Violation("wrong-shape", f"{where}: {tuple(y.shape)} for times {tuple(t.shape)}")
    if not bool(torch.isfinite(y).all()):
        raise Violation("not-finite", where)
    y = y.detach()
    if S.y0 is not None and env.bits(y[0]) != env.bits(S.y0):
        raise Violation("wrong-start", where)
    if S.y0 is None and bool((y[0] != 0).any()):
        raise Violation("wrong-start", where)
    try:
        dl = ref.correction(S.rate, y, t, c["method"])
    except ref.RefFail as e:
        raise Skip(str(e))
    # per test: nothing hides behind a test with larger values
    sc = y.abs().amax(dim=0, keepdim=True) + 1e-3 * y.abs().amax(dim=(0, 1), keepdim=True) + (1e-6 if c["kind"] == "toy" else 1e-3)
    tol = 1e-7 if c["kind"] == "toy" else 2e-6
    if F.fired:
        # iterations with wrong derivatives stop just below the tolerance instead of far below
        tol *= 100
    if c["kind"] == "model" and c["w"]["ctl"] != 0:
        # the solver's norm mixes strains (1e-3) with hardening variables (1e2), strains get the coarse end of it
        tol *= 10
    if c["method"] == "forward-euler":
        # explicit steps may amplify whatever is left
        tol *= 10
    e = dl.abs() / sc
    w = float(e.max())
    ctx.max_err = max(ctx.max_err, w / tol)
    if not w <= tol:
        k = int(e.amax(dim=(1, 2)).argmax()) + 1
        b = int(e[k - 1].amax(dim=1).argmax())
        raise Violation("not-the-sequential-solution", f"{where}: step {k} of test {b} off by {w:.1e}")
    ctx.tensor("y", y, hold=where)
    ctx.probe("trajectories-checked")
    ctx.sim_time += float((t[-1] - t[0]).abs().max())
    if block > 1 and t.shape[0] > 2:
        ctx.nontrivial = True


def shrink(c):
    for g in shrink_list(c["goes"], 1):
        yield dict(c, goes=g)
    for i, g in enumerate(c["goes"]):
        for f in shrink_list(g["faults"], 0):
            yield dict(c, goes=c["goes"][:i] + [dict(g, faults=f)] + c["goes"][i + 1 :])
    if c["kind"] == "toy":
        if len(c["times"]) > 2:
            yield dict(c, times=c["times"][:-1])
            yield dict(c, times=c["times"][: max(2, len(c["times"]) // 2)])
        if len(c["y0"]) > 1:
            for b in range(len(c["y0"])):
                yield dict(c, y0=c["y0"][:b] + c["y0"][b + 1 :], times=[r[:b] + r[b + 1 :] for r in c["times"]])
    else:
        W = c["w"]
        h = W["hist"]
        if len(h) > 1:
            for b in range(len(h)):
                yield dict(c, w=dict(W, hist=h[:b] + h[b + 1 :]))
        n = len(h[0]["times"])
        if n > 3:
            yield dict(c, w=dict(W, hist=[{k: (v[:-1] if isinstance(v, list) and len(v) == n else v) for k, v in x.items()} for x in h]))
