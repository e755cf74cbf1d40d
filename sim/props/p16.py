"""P16: declared parameter bounds hold through every calibration history."""
import copy
import math

import torch

from sim import env, zoo
from sim.core import CaseTimeout, Skip, Violation, shrink_list

RUNS = {"quick": 700, "thorough": 30000}
RULE = "one run = one history of optimiser steps with faulty gradients, far draws, checkpoints, restarts, copies and interrupted evaluations over bounded parameters; distinct = distinct event-log digest (bits of every parameter value), nontrivial = at least one scaled value left the unit interval or became non-finite"
TIME = "number of optimiser steps and evaluations is the only clock"
MEASURE = "distinct (scaling, holder, event, place of the scaled value) tuples"
REAL = ["pyoptmat.scaling", "pyoptmat.optimize scaling helpers and statistical models", "pyoptmat.temperature", "pyoptmat.models and pyoptmat.ode (calibration runs)", "torch.optim", "pyro sampling"]
STUBS = ["gradients (multiplied, reversed, made infinite or not-a-number at chosen steps)", "checkpoint disk (lost, torn, corrupt writes)", "draws far out in the tails"]
ASSUMPTIONS = [
    "bounds hold up to 1e-12 of their size",
    "gradients are judged away from the ends of the unit interval, where the slope of a clipped map is a matter of convention",
    "a scaled value that is not a number must give a value that is not a number",
]
CHUNK = 10

SCALES = ["Bounded", "Bounded", "Bounded", "BoundedFree", "LogBounded", "LogBounded", "LogBoundedFree", "Simple", "fn", "fn", "fn-min", "factor", "factor-min", "clamp", "clampscale", "logclamp"]
HOLDERS = ["const", "const", "const", "outer", "poly", "piece"]
# temperature dependences with a scaled parameter inside their formula
LAWS = ["shear", "shearexp", "arrA", "arrQ", "invA", "invQ", "mts", "km", "kmvA", "kmvB"]


# ------------------------------------------------------------------- generation
def gen_param(rng):
    k = rng.choice(SCALES)
    l = rng.choice([zoo.rnd(rng, 0.1, 3), zoo.rnd(rng, 10, 500), zoo.rnd(rng, 1e-6, 1e-3)])
    u = l * rng.choice([1.001, 1.5, 3.0, 100.0])
    if not k.startswith("Log") and rng.random() < 0.2:
        l = -l
    size = rng.choice([0, 0, 1, 3])
    hold = rng.choice(HOLDERS)
    if hold == "poly":
        size = 1
    elif hold == "piece":
        size = 3
    p = {"k": k, "l": l, "u": u, "hold": hold, "size": size, "vec": rng.random() < 0.4 and size > 0}
    if size == 0 and rng.random() < 0.4 and k not in ("BoundedFree", "LogBoundedFree", "Simple"):
        p["hold"] = rng.choice(LAWS)
        if p["hold"] in ("shearexp", "kmvB"):
            p["l"] = l = zoo.rnd(rng, 0.1, 3)
            p["u"] = u = l * rng.choice([1.001, 1.5, 3.0, 20.0])
    p["f"] = rng.choice([0.1, 0.5, 0.9])
    p["mn"] = l + (u - l) * rng.choice([0.0, 0.1, 0.4])
    p["s"] = rng.choice([1.0, 0.5, 20.0])
    p["x"] = [zoo.rnd(rng, 0.05, 0.95) for _ in range(max(size, 1))]
    return p


def generate(rng, tier, i):
    kind = rng.choice(["raw", "raw", "raw", "raw", "det", "draw"])
    c = {"kind": kind}
    if kind == "raw":
        c["ps"] = [gen_param(rng) for _ in range(rng.randint(1, 3))]
        c["opt"] = rng.choice(["sgd", "sgd", "adam", "rmsprop"])
        c["lr"] = rng.choice([0.01, 0.3, 3.0])
        c["tracked"] = rng.random() < 0.2
    else:
        c["b"] = [[zoo.rnd(rng, 60000, 100000), zoo.rnd(rng, 120000, 200000)], [zoo.rnd(rng, 2.5, 3.5), zoo.rnd(rng, 5.0, 7.0)], [zoo.rnd(rng, 100, 200), zoo.rnd(rng, 250, 400)]]
        c["how"] = [rng.choice(["Bounded", "LogBounded", "fn", "fn-min"]) for _ in range(3)]
        c["x"] = [zoo.rnd(rng, 0.1, 0.9) for _ in range(3)]
        n = rng.randint(4, 6)
        c["hist"] = [dict(zoo.gen_history(rng, 0, n), type="tensile", cycles=[0] * n) for _ in range(rng.choice([1, 2]))]
        c["lr"] = rng.choice([0.01, 0.3])
        c["which"] = rng.choice(["stat", "hier"])
        c["spread"] = rng.choice([0.1, 1.0, 10.0])
        c["adjoint"] = rng.random() < 0.6
    c["ev"] = []
    for _ in range(rng.randint(3, 12) if kind == "raw" else rng.randint(1, 3)):
        e = rng.choice(["step"] * 4 + ["jump"] * 2 + (["back", "save", "load", "copy", "cut", "nograd", "freeze", "inverse", "report"] if kind == "raw" else []))
        c["ev"].append([e, rng.choice(["ok", "ok", "huge", "huge", "flip", "inf", "nan", "tiny"]), rng.randrange(10**6)])
    c["disk"] = [rng.choice(["ok"] * 5 + ["lost", "torn", "flip", "enospc"]) for _ in range(12)]
    return c


# ------------------------------------------------------------- reference mapping
def T(v):
    return torch.tensor(float(v))


class Bound:
    """One scaling, the declared bounds and the reference map."""

    def __init__(self, p):
        from pyoptmat import optimize as o, scaling as s

        self.p = p
        k = p["k"]
        l, u, mn, sc = p["l"], p["u"], p["mn"], p["s"]
        if p.get("vec"):
            w = torch.linspace(1.0, 1.3, max(p["size"], 1))
        else:
            w = torch.tensor(1.0)
        self.l, self.u, self.mn, self.s = w * l, w * u, w * mn, T(sc)
        self.given = [self.l, self.u, self.mn, self.s]
        mean, f = w * u, T(p["f"])
        if k.startswith("factor"):
            self.given += [mean, f]
        mk = {
            "Bounded": lambda: s.BoundedScalingFunction(self.l, self.u),
            "BoundedFree": lambda: s.BoundedScalingFunction(self.l, self.u, clamp=False),
            "LogBounded": lambda: s.LogBoundedScalingFunction(self.l, self.u),
            "LogBoundedFree": lambda: s.LogBoundedScalingFunction(self.l, self.u, clamp=False),
            "Simple": lambda: s.SimpleScalingFunction(self.u),
            "fn": lambda: o.bounded_scale_function((self.l, self.u)),
            "fn-min": lambda: o.bounded_scale_function((self.l, self.u), min_bound=self.mn),
            "factor": lambda: o.bound_factor(mean, f),
            "factor-min": lambda: o.bound_factor(mean, f, min_bound=self.mn),
            "clamp": lambda: o.clamp_scale_function((self.l, self.u)),
            "clampscale": lambda: o.bound_and_scale(self.s, (self.l, self.u)),
            "logclamp": lambda: o.log_bound_and_scale(self.s, (self.l, self.u)),
        }
        if k.startswith("factor"):
            self.lo, self.hi = mean * (1 - f), mean * (1 + f)
        else:
            self.lo, self.hi = self.l, self.u
        self.fn = mk[k]()
        self.unit = k in ("Bounded", "BoundedFree", "LogBounded", "LogBoundedFree", "fn", "fn-min", "factor", "factor-min")
        self.bounded = k not in ("BoundedFree", "LogBoundedFree", "Simple")
        self.log = k.startswith("Log")

    def free(self, x):
        k = self.p["k"]
        if k == "Simple":
            return self.u * x
        if k == "clamp":
            return x * 1.0
        if k == "clampscale":
            return x / self.s
        if k == "logclamp":
            return torch.exp(x / self.s)
        if self.log:
            return torch.exp(torch.log(self.lo) + x * (torch.log(self.hi) - torch.log(self.lo)))
        return self.lo + x * (self.hi - self.lo)

    def value(self, x):
        if self.unit and self.bounded:
            x = torch.where(x < 0, torch.zeros_like(x), torch.where(x > 1, torch.ones_like(x), x))
        y = self.free(x)
        if self.bounded and not self.unit:
            y = torch.where(y < self.lo, self.lo.expand_as(y), torch.where(y > self.hi, self.hi.expand_as(y), y))
        if self.p["k"].endswith("-min"):
            y = torch.where(y < self.mn, self.mn.expand_as(y), y)
        return y

    def limits(self):
        lo, hi = torch.minimum(self.lo, self.hi), torch.maximum(self.lo, self.hi)
        if self.p["k"].endswith("-min"):
            lo, hi = torch.maximum(lo, self.mn), torch.maximum(hi, self.mn)
        return lo, hi

    def start(self, x):
        """a scaled value of ordinary size"""
        k = self.p["k"]
        v = self.lo + x * (self.hi - self.lo)
        if k == "clamp":
            return v
        if k == "clampscale":
            return v * self.s
        if k == "logclamp":
            return torch.log(v.abs()) * self.s
        return x * torch.ones_like(v)


def hold(p, B, x):
    """the parameter object of the package, and the temperatures -> reference"""
    from pyoptmat import temperature as tp

    if p["hold"] == "const":
        return tp.ConstantParameter(x, p_scale=B.fn)
    if p["hold"] == "outer":
        return tp.ConstantParameter(x, scaling=B.fn)
    if p["hold"] in LAWS:
        mu = tp.PolynomialScaling(torch.tensor(MU))
        one = torch.tensor(1.0)
        return {
            "shear": lambda: tp.ShearModulusScaling(x, mu, A_scale=B.fn),
            "shearexp": lambda: tp.ShearModulusScalingExp(x, mu, A_scale=B.fn),
            "arrA": lambda: tp.ArrheniusScaling(x, T(700.0), A_scale=B.fn),
            "arrQ": lambda: tp.ArrheniusScaling(T(3.0), x, Q_scale=B.fn),
            "invA": lambda: tp.InverseArrheniusScaling(x, T(700.0), A_scale=B.fn),
            "invQ": lambda: tp.InverseArrheniusScaling(T(3.0), x, Q_scale=B.fn),
            "mts": lambda: tp.MTSScaling(x, T(0.7), T(2.0), T(1.5), T(KB), T(BV), mu, tau0_scale=B.fn),
            "km": lambda: tp.KMRateSensitivityScaling(x, mu, T(BV), T(KB), A_scale=B.fn),
            "kmvA": lambda: tp.KMViscosityScaling(x, T(-2.0), mu, T(1e8), T(BV), T(KB), A_scale=B.fn),
            "kmvB": lambda: tp.KMViscosityScaling(T(-8.0), x, mu, T(1e8), T(BV), T(KB), B_scale=B.fn),
        }[p["hold"]]()
    if p["hold"] == "poly":
        return tp.PolynomialScaling(x, coef_scale_fn=B.fn)
    return tp.PiecewiseScaling(torch.tensor([300.0, 500.0, 900.0]), x, values_scale_fn=B.fn)


MU, BV, KB = [-20.0, 70000.0], 2.5e-7, 1.38e-20


def law(k, v):
    """the documented formula, with the scaled parameter's actual value v"""
    mu = MU[0] * TEMPS + MU[1]
    km = lambda A, cut: torch.clamp(-mu * BV**3 / (KB * TEMPS * A), 1.0, cut)
    if k == "shear":
        return v * mu
    if k == "shearexp":
        return torch.exp(v) * mu
    if k == "arrA":
        return v * torch.exp(-700.0 / TEMPS)
    if k == "arrQ":
        return 3.0 * torch.exp(-v / TEMPS)
    if k == "invA":
        return v * (1 - torch.exp(-700.0 / TEMPS))
    if k == "invQ":
        return 3.0 * (1 - torch.exp(-v / TEMPS))
    if k == "mts":
        return v * (1 - (KB * TEMPS / (mu * BV**3 * 0.7)) ** (1 / 2.0)) ** (1 / 1.5)
    if k == "km":
        return km(v, 20.0)
    n = km(v, 1000.0) if k == "kmvA" else km(-8.0, 1000.0)
    B = v if k == "kmvB" else torch.tensor(-2.0)
    return torch.exp(B) * mu * 1e8 ** (-1.0 / n)


TEMPS = torch.tensor([300.0, 310.0, 444.0, 500.0, 777.0, 900.0])


def expected(p, B, x):
    v = B.value(x)
    if p["hold"] in ("const", "outer"):
        return v
    if p["hold"] == "poly":
        return torch.zeros_like(TEMPS) + v[0]
    if p["hold"] in LAWS:
        return law(p["hold"], v)
    c = [300.0, 500.0, 900.0]
    out = []
    for t in TEMPS.tolist():
        i = 0 if t <= c[1] else 1
        f = (t - c[i]) / (c[i + 1] - c[i])
        out.append(v[i] + (v[i + 1] - v[i]) * f)
    return torch.stack(out)


def place(B, x):
    x = x.detach()
    if bool(torch.isnan(x).any()):
        return "nan"
    if bool(torch.isinf(x).any()):
        return "inf"
    v = B.free(x)
    lo, hi = B.limits()
    return "below" if bool((v < lo).any()) else "above" if bool((v > hi).any()) else "inside"


def agree(ctx, got, want, cls, where, tol=1e-9, whole=False):
    if got.shape != want.shape:
        if got.numel() != want.numel():
            raise Violation(cls, f"{where}: shape {tuple(got.shape)} instead of {tuple(want.shape)}")
        got = got.reshape(want.shape)
    a, b = got.detach(), want.detach()
    na, nb = torch.isnan(a), torch.isnan(b)
    if bool((na != nb).any()):
        raise Violation(cls, f"{where}: {a.tolist()} instead of {b.tolist()}")
    ok = ~nb
    inf = torch.isinf(b) | torch.isinf(a)
    if bool((inf & (a != b)).any()):
        raise Violation(cls, f"{where}: {a.tolist()} instead of {b.tolist()}")
    ok = ok & ~inf
    size = b[ok].abs().max() if whole and bool(ok.any()) else b.abs()
    e = ((a - b).abs() / (size + 1e-30))[ok]
    m = (e.max().item() if e.numel() else 0.0) / tol
    ctx.max_err = max(ctx.max_err, m)
    if m > 1:
        raise Violation(cls, f"{where}: {a.tolist()} instead of {b.tolist()}")


def within(B, got, where, piece=False):
    if not B.bounded:
        return
    lo, hi = B.limits()
    if piece:
        lo, hi = lo.min(), hi.max()
    slack = 1e-12 * (lo.abs() + hi.abs())
    v = got.detach()
    bad = (v < lo - slack) | (v > hi + slack)
    if bool(bad.any()):
        raise Violation("out-of-bounds", f"{where}: {v.tolist()} not in [{lo.tolist()}, {hi.tolist()}]")


# ------------------------------------------------------------------ raw histories
def execute(c, ctx):
    ctx.nontrivial = False
    {"raw": run_raw, "det": run_det, "draw": run_draw}[c["kind"]](c, ctx)
    ctx.probe("runs-" + c["kind"])


def spoil(g, how, r):
    if how == "huge":
        return g * 10.0 ** (3 + r % 12)
    if how == "tiny":
        return g * 1e-12
    if how == "flip":
        return -g * 30
    if how == "inf":
        return torch.full_like(g, float("inf") if r % 2 else -float("inf"))
    if how == "nan":
        return torch.full_like(g, float("nan"))
    return g


def run_raw(c, ctx):
    Bs = [Bound(p) for p in c["ps"]]
    watch = env.Watch([(f"bounds {i}.{j}", t) for i, B in enumerate(Bs) for j, t in enumerate(B.given)])
    xs = []
    for p, B in zip(c["ps"], Bs):
        x = torch.tensor(p["x"]) if p["size"] else torch.tensor(p["x"][0])
        xs.append(torch.nn.Parameter(B.start(x).reshape(x.shape).clone()))
    hs = [hold(p, B, x) for p, B, x in zip(c["ps"], Bs, xs)]
    if any(not any(x is q for q in h.parameters()) for x, h in zip(xs, hs)):
        raise Violation("parameter-not-registered", str([p["hold"] for p in c["ps"]]))
    disk = env.SimDisk(ctx, c["disk"])
    stored = {}

    def make_opt():
        return {"sgd": torch.optim.SGD, "adam": torch.optim.Adam, "rmsprop": torch.optim.RMSprop}[c["opt"]](xs, lr=c["lr"])

    opt = make_opt()

    def evaluate(where, grad=True):
        total = 0.0
        for p, B, x, h in zip(c["ps"], Bs, xs, hs):
            y = h(TEMPS)
            if p["k"] == "LogBoundedFree" and not bool((x.detach().abs() < 50).all()):
                # without clipping the map overflows
                ctx.probe("overflow-not-judged")
                continue
            nm = f"{where}: {p['k']} in {p['hold']} at {x.detach().tolist()}"
            if p["hold"] not in LAWS:
                within(B, y, nm, p["hold"] in ("piece", "poly"))
            agree(ctx, y, expected(p, B, x.detach()), "wrong-value", nm, whole=p["hold"] in ("piece", "invQ"))
            ctx.tensor("v", y)
            pl = place(B, x)
            ctx.reach((p["k"], p["hold"], where, pl))
            ctx.probe("value-" + pl)
            if pl != "inside":
                ctx.nontrivial = True
            total = total + (y / (B.u.abs().max() + 1e-30)).sum()
        watch.check("bounds-modified", where)
        return total

    def gradients(where):
        total = evaluate(where)
        if not torch.is_tensor(total) or not total.requires_grad:
            return [None] * len(xs)
        gs = torch.autograd.grad(total, [x for x in xs if x.requires_grad], allow_unused=True)
        it = iter(gs)
        out = []
        for p, B, x in zip(c["ps"], Bs, xs):
            g = next(it) if x.requires_grad else None
            out.append(g)
            if g is None or (p["k"] == "LogBoundedFree" and not bool((x.detach().abs() < 50).all())):
                continue
            # reference: one-sided slopes of the reference map
            z = x.detach().clone().requires_grad_(True)
            (w,) = torch.autograd.grad((expected(p, B, z) / (B.u.abs().max() + 1e-30)).sum(), z, allow_unused=True)
            w = torch.zeros_like(z) if w is None else w
            v = B.free(x.detach())
            lo, hi = B.limits()
            margin = 1e-6 * (hi - lo).abs()
            clear = ((v - lo).abs() > margin) & ((v - hi).abs() > margin) & torch.isfinite(v)
            if B.unit:
                clear = clear & ((x.detach()).abs() > 1e-6) & ((x.detach() - 1).abs() > 1e-6)
            clear = clear.reshape(x.shape) if clear.numel() == x.numel() else clear.all().expand_as(x)
            if bool(clear.any()):
                agree(ctx, g[clear], w[clear], "wrong-gradient", f"{where}: gradient of {p['k']} in {p['hold']} at {x.detach().tolist()}", 1e-8)
                ctx.probe("gradients-compared")
        return out

    for n, (e, how, r) in enumerate(c["ev"]):
        where = e
        ctx.event(e, how)
        if e == "step":
            gs = gradients(where)
            ctx.fault("gradient-" + how)
            opt.zero_grad()
            for x, g in zip(xs, gs):
                if g is not None:
                    x.grad = spoil(g, how, r)
            opt.step()
        elif e == "jump":
            with torch.no_grad():
                x = xs[r % len(xs)]
                v = [1e300, -1e300, 1e8, -1e8, 50.0, -50.0, 1.0, 0.0, 1 + 1e-9, -1e-9, float("inf"), -float("inf"), float("nan")][r % 13]
                if abs(v) > 500 and c["ps"][r % len(xs)]["k"] in ("logclamp", "LogBoundedFree"):
                    v = 50.0
                if r // 13 % 2:
                    # as restarts from raw arrays do
                    x.data.view(-1)[r % x.numel()] = v
                    evaluate("moved")
                    x.data.mul_(0.5)
                    evaluate("moved")
                    x.data.view(-1)[r % x.numel()] = v
                else:
                    x.view(-1)[r % x.numel()] = v
            ctx.fault("jump")
        elif e == "back":
            with torch.no_grad():
                for p, B, x in zip(c["ps"], Bs, xs):
                    x.copy_(B.start(torch.rand(x.shape) * 0.9 + 0.05).reshape(x.shape))
            opt = make_opt()
        elif e == "save":
            nm = f"s{disk.writes}"
            try:
                disk.write(nm, env.pack([{k: v for k, v in h.state_dict().items()} for h in hs]))
                stored[nm] = [x.detach().clone() for x in xs]
            except OSError:
                ctx.probe("save-refused")
        elif e == "load":
            for nm in reversed(disk.order):
                b = disk.read(nm)
                if b is None:
                    continue
                # the process restarted: new objects, stored state
                xs = [torch.nn.Parameter(x.detach() * 0 + 0.5) for x in xs]
                hs = [hold(p, B, x) for p, B, x in zip(c["ps"], Bs, xs)]
                for h, s in zip(hs, env.unpack(b)):
                    h.load_state_dict(s)
                for x, w in zip(xs, stored[nm]):
                    if env.bits(x.detach()) != env.bits(w):
                        raise Violation("restart-differs", f"{x.tolist()} instead of {w.tolist()}")
                opt = make_opt()
                ctx.fault("restart")
                break
        elif e == "copy":
            other = copy.deepcopy(hs)
            with torch.no_grad():
                for h in other:
                    for q in h.parameters():
                        q.add_(0.37)
            del other
        elif e == "cut":
            tr = env.LineTracer(1 + r % 40) if r % 2 else env.OpTracer(1 + r % 30)
            try:
                with tr:
                    for h in hs:
                        h(TEMPS)
            except (env.Injected, env.InjectedError):
                ctx.fault("cut")
        elif e == "nograd":
            with torch.no_grad():
                evaluate(where)
        elif e == "freeze":
            xs[r % len(xs)].requires_grad_(not xs[r % len(xs)].requires_grad)
        elif e == "inverse":
            for p, B, x in zip(c["ps"], Bs, xs):
                if not hasattr(B.fn, "unscale"):
                    continue
                v = B.fn.scale(x.detach())
                if not bool(torch.isfinite(v).all()) or place(B, x) != "inside" or p["k"] == "LogBoundedFree":
                    continue
                # bounds that nearly coincide leave few digits
                cond = float((B.hi.abs().max() / (B.hi - B.lo).abs().min()))
                z = B.fn.unscale(v)
                if not bool(((z - x.detach()).abs() <= 1e-13 * (1 + cond) * (1 + x.detach().abs()) * 10).all()):
                    raise Violation("not-inverted", f"{p['k']}: {x.detach().tolist()} came back as {z.tolist()}")
                agree(ctx, B.fn.scale(z), v, "not-inverted", p["k"], 1e-9)
                agree(ctx, B.fn(x.detach()), v, "wrong-value", p["k"] + " forward", 1e-15)
        else:
            for p, B, x in zip(c["ps"], Bs, xs):
                if not hasattr(B.fn, "scale_mean"):
                    continue
                m = B.fn.scale_mean(x.detach(), T(0.1))
                if not isinstance(B.fn.scale_stat(x.detach(), T(0.1)), str):
                    raise Violation("no-report", p["k"])
                if p["k"] in ("Bounded", "Simple", "BoundedFree"):
                    agree(ctx, m, B.value(x.detach()), "wrong-report", p["k"])
        ctx.sim_time += 1
        gradients(where)
    evaluate("end")


# --------------------------------------------------------------------- calibrations
def specs(c):
    names = ["E", "n", "eta"]
    out = []
    for k, (l, u) in zip(c["how"], c["b"]):
        out.append({"k": k, "l": l, "u": u, "hold": "const", "size": 0, "f": 0.5, "mn": l + 0.2 * (u - l), "s": 1.0, "x": [0.5]})
    return names, out


def material(ps, c):
    from pyoptmat import flowrules, models

    flow = flowrules.PerfectViscoplasticity(ps[1], ps[2])
    return models.ModelIntegrator(models.InelasticModel(ps[0], flow), use_adjoint=c["adjoint"], block_size=3, rtol=1e-8, atol=1e-8, miter=50)


def maker_for(c, Bs, seen, ctx):
    from pyoptmat import temperature as tp

    def maker(*xs, **kwargs):
        ps = [tp.ConstantParameter(x, p_scale=B.fn) for x, B in zip(xs, Bs)]
        for x, B, p in zip(xs, Bs, ps):
            v = p(torch.tensor([500.0]))
            within(B, v, f"{B.p['k']} in a calibration at {x.detach().tolist()}")
            agree(ctx, v, B.value(x.detach()), "wrong-value", f"{B.p['k']} in a calibration at {x.detach().tolist()}")
            pl = place(B, x)
            ctx.reach((B.p["k"], c["kind"], pl))
            ctx.probe("value-" + pl)
            if pl != "inside":
                ctx.nontrivial = True
            seen.append(v.detach())
        m = material(ps, c)
        if c["adjoint"] and c["kind"] == "draw" and "extra_params" in kwargs:
            m.kwargs_for_integration["extra_params"] = kwargs["extra_params"]
        return m

    return maker


def run_det(c, ctx):
    from pyoptmat import optimize, temperature as tp

    names, sp = specs(c)
    Bs = [Bound(p) for p in sp]
    watch = env.Watch([(f"bounds {i}.{j}", t) for i, B in enumerate(Bs) for j, t in enumerate(B.given)])
    seen = []
    m = optimize.DeterministicModel(maker_for(c, Bs, seen, ctx), names, [T(x) for x in c["x"]])
    data = zoo.stack_tests(c["hist"])
    opt = torch.optim.SGD(m.parameters(), lr=c["lr"])
    for e, how, r in c["ev"]:
        with env.solver_signals() as sig:
            y = m(*data)
        x = [getattr(m, n).detach() for n in names]
        finite = not any(bool(torch.isnan(v).any()) for v in x)
        if finite and not sig:
            # the same with the values written down directly
            ref = material([tp.ConstantParameter(B.value(v)) for B, v in zip(Bs, x)], c)
            with torch.no_grad():
                w = optimize.experiments.convert_results(ref.solve_both(data[0][0], data[0][1], data[0][2], data[3])[:, :, 0], data[1], data[2])
            s = w.abs().max() + 1e-9
            d = float((y.detach() - w).abs().max() / s)
            if not d <= 1e-7:
                raise Violation("wrong-prediction", f"{c['how']} at {[v.item() for v in x]}: off by {d:.1e}")
            ctx.tensor("y", y)
            ctx.probe("predictions-compared")
        ctx.sim_time += 1
        opt.zero_grad()
        if not finite:
            if not sig and bool(torch.isfinite(y).all()):
                raise Violation("silent-nan", f"{c['how']}: finite predictions, no warning, for {[v.item() for v in x]}")
            ctx.probe("calibration-ended-with-nan")
            break
        y.pow(2).mean().backward()
        ctx.fault("gradient-" + how)
        with torch.no_grad():
            for n in names:
                p = getattr(m, n)
                g = p.grad if p.grad is not None else torch.zeros_like(p)
                p.grad = spoil(g / (g.abs() + 1e-12), how, r)
        opt.step()
        if e == "jump":
            with torch.no_grad():
                getattr(m, names[r % 3]).fill_([5.0, -3.0, 1e9, 1.0, 0.0][r % 5])
            ctx.fault("jump")
        watch.check("bounds-modified", "calibration")


def run_draw(c, ctx):
    """statistical models whose draws lie far outside"""
    import pyro
    from pyoptmat import optimize
    from pyro import poutine

    names, sp = specs(c)
    Bs = [Bound(p) for p in sp]
    watch = env.Watch([(f"bounds {i}.{j}", t) for i, B in enumerate(Bs) for j, t in enumerate(B.given)])
    seen = []
    mk = maker_for(c, Bs, seen, ctx)
    loc = [T(x) for x in c["x"]]
    sc = [T(c["spread"]) for _ in loc]
    if c["which"] == "stat":
        M = optimize.StatisticalModel(mk, names, loc, sc, T(5.0))
    else:
        M = optimize.HierarchicalStatisticalModel(mk, names, loc, sc, [T(c["spread"]) for _ in loc], T(5.0))
    data = zoo.stack_tests(c["hist"])
    obs = torch.zeros_like(data[1], dtype=torch.float64)
    for k, (e, how, r) in enumerate(c["ev"]):
        pyro.clear_param_store()
        torch.manual_seed(r)
        del seen[:]
        tr = poutine.trace(M).get_trace(*data, obs)
        if len(seen) != 3:
            raise Violation("maker-calls", f"{len(seen)} parameters instead of 3")
        for n, B, v in zip(names, Bs, seen):
            x = tr.nodes[n]["value"].detach()
            agree(ctx, v, B.value(x), "wrong-value", f"{c['which']}: {n} drawn as {x.tolist()}")
            ctx.tensor("v", v)
        ctx.fault("draws-with-spread-%g" % c["spread"], 3)
        ctx.sim_time += 1
        watch.check("bounds-modified", "sampling")


def shrink(c):
    for ev in shrink_list(c["ev"], 0 if c["kind"] == "raw" else 1):
        yield dict(c, ev=ev)
    if c["kind"] == "raw":
        for ps in shrink_list(c["ps"], 1):
            yield dict(c, ps=ps)
        for i, p in enumerate(c["ps"]):
            if p["vec"]:
                yield dict(c, ps=c["ps"][:i] + [dict(p, vec=False)] + c["ps"][i + 1 :])
    elif len(c["hist"]) > 1:
        yield dict(c, hist=c["hist"][:1])
