"""P10: statistical models draw exactly the declared random variables."""
import math

import torch

from sim import env, zoo
from sim.core import CaseTimeout, Violation, shrink_list

RUNS = {"quick": 1400, "thorough": 40000}
RULE = "one run = one statistical model executed several times (drawn, conditioned, replayed, guided, after training steps) under a controlled random stream, every sample site recorded and drawn again from the declared prior; distinct = distinct event-log digest (bits of all sites), nontrivial = at least two executions"
TIME = "number of executions is the only clock"
MEASURE = "distinct (model, options, previous execution, execution) tuples"
REAL = ["pyoptmat.optimize.StatisticalModel, HierarchicalStatisticalModel and guide", "pyoptmat.experiments.convert_results", "pyro", "pyoptmat.models and ode in the runs with the real maker"]
STUBS = ["in most runs the integrated material model (a closed formula of the drawn parameters)", "random stream (seeded before every execution)", "ends of the normal distribution injected as draws"]
ASSUMPTIONS = ["the declared prior is the one in the class documentation", "weights apply to everything inside the plate of tests; only the likelihood's weight is checked", "the random stream is drawn in the order of the sample sites"]
CHUNK = 10


def generate(rng, tier, i):
    c = {"level": rng.choice(["single", "single", "hier", "hier", "hier"]), "real": rng.random() < 0.2, "seed": rng.randrange(10**6)}
    n = rng.randint(3, 6)
    c["data"] = [[zoo.gen_test(rng, n) for _ in range(rng.choice([1, 2, 3, 5, 7]))] for _ in range(2)]
    if c["real"]:
        n = 5
        c["cal"] = zoo.gen_calibration(rng, nb=1, n=n, hier=True)
        c["cal"]["solver"]["kw"].update(rtol=1e-6, atol=1e-8, miter=15)
        c["data"] = [[zoo.gen_test(rng, n) for _ in range(rng.choice([1, 2, 3]))] for _ in range(2)]
    else:
        c["params"] = [rng.choice([[], [], [2], [3], [1]]) for _ in range(rng.randint(1, 5))]
    c["tnoise"] = rng.random() < 0.5
    c["inoise"] = c["level"] == "hier" and rng.random() < 0.5
    c["weights"] = rng.choice([None, None, "all", "present"]) if c["level"] == "hier" else None
    c["suffix"] = rng.random() < 0.3
    c["nan"] = c["level"] == "single" and not c["real"] and rng.random() < 0.2
    c["zero_results"] = rng.random() < 0.5
    evs = ["draw", "draw", "draw", "cond", "cond", "other-data", "other-data", "replay-seed"]
    if c["level"] == "hier":
        evs += ["guide", "guide", "train", "train", "through-guide"]
    c["events"] = [[rng.choice(evs), rng.randrange(10**6), rng.choice(["none"] * 5 + ["extreme", "zero"])] for _ in range(rng.randint(2, 6))]
    return c


class Formula:
    """stands for the integrated model: one value per time and test from the drawn parameters"""

    def __init__(self, dims, params, nan):
        self.p = [x.sum(dim=-1) if d else x for d, x in zip(dims, params)]
        self.nan = nan

    def solve_both(self, times, temps, loads, control):
        y = loads * 100 + 1e-3 * temps
        for k, p in enumerate(self.p):
            y = y + (k + 1) * p * torch.sqrt(times + 1.0) / (1 + times.max())
        if self.nan:
            y = y.clone()
            y[-1, 0] = float("nan")
        return y.unsqueeze(-1)


class Build:
    def __init__(self, c):
        import pyro
        from pyoptmat import optimize

        pyro.clear_param_store()
        g = torch.Generator().manual_seed(c["seed"])
        self.c = c
        if c["real"]:
            maker, self.names, self.locs = zoo.make_maker(c["cal"])
            self.dims = [p.dim() for p in self.locs]
        else:
            self.dims = [len(s) for s in c["params"]]
            self.names = [f"p{k}" for k in range(len(self.dims))]
            self.locs = [torch.rand(s, generator=g) * 4 - 2 for s in c["params"]]

            def maker(*a, extra_params=None):
                return Formula(self.dims, a, c["nan"])

        rel = 0.02 if c["real"] else 1.0
        self.scales = [rel * (0.2 + torch.rand(p.shape, generator=g)) * (p.abs() + 1e-3) for p in self.locs]
        self.sscales = [rel * (0.1 + torch.rand(p.shape, generator=g)) * (p.abs() + 1e-3) for p in self.locs]
        self.eps = torch.rand(7, generator=g) + 0.5 if c["tnoise"] else torch.rand((), generator=g) + 0.5
        self.calls = []
        self.maker = maker

        def spy(*a, **k):
            self.calls.append((a, k))
            return maker(*a, **k)

        self.sfx = ("_mean", "_dev", "_guess") if c["suffix"] else ("_loc", "_scale", "_param")
        self.w = None
        if c["weights"]:
            present = {h["type"] for d in c["data"] for h in d}
            self.w = {t: 0.25 + 0.5 * i for t, i in zoo.TYPE_CODE.items() if c["weights"] == "all" or t in present}
        if c["level"] == "single":
            self.m = optimize.StatisticalModel(spy, self.names, self.locs, self.scales, self.eps, nan_num=c["nan"])
        else:
            kw = dict(loc_suffix=self.sfx[0], scale_suffix=self.sfx[1], param_suffix=self.sfx[2]) if c["suffix"] else {}
            self.m = optimize.HierarchicalStatisticalModel(spy, self.names, self.locs, self.scales, self.sscales, self.eps, include_noise=c["inoise"], weights=self.w, **kw)
        self.guide = None
        self.svi = None
        self.data = []
        for d in c["data"]:
            x = zoo.stack_tests(d)
            res = torch.rand(x[1].shape, generator=g) * (0 if c["zero_results"] else 50)
            self.data.append((x, res))


class Normals:
    """every draw of a standard normal under control: extreme values are possible draws"""

    def __init__(self, how):
        self.how = how

    def __enter__(self):
        from pyro.distributions import torch as pt  # noqa: F401
        import torch.distributions.normal as tn
        import torch.distributions.half_normal as th  # noqa: F401

        self.tn, self.old = tn, tn._standard_normal
        v = {"extreme": 8.2, "zero": 1e-9}[self.how]
        old = self.old

        def draw(shape, dtype, device):
            z = old(shape, dtype, device)
            s = torch.where(z < 0, -1.0, 1.0)
            return s * v

        tn._standard_normal = draw
        self.oldn = torch.normal

        def normal(mean, std, *a, **k):
            if isinstance(mean, torch.Tensor) and isinstance(std, torch.Tensor) and not a and not k:
                return mean + std * draw(torch.broadcast_shapes(mean.shape, std.shape), mean.dtype, mean.device)
            return self.oldn(mean, std, *a, **k)

        torch.normal = normal
        return self

    def __exit__(self, *a):
        self.tn._standard_normal = self.old
        torch.normal = self.oldn


def base(fn):
    while hasattr(fn, "base_dist") and type(fn).__name__ in ("Independent", "ExpandedDistribution", "MaskedDistribution"):
        fn = fn.base_dist
    return fn


def declared(b, tr, nt):
    """(name, distribution with full shape) of every declared latent, in the order of the trace"""
    import pyro.distributions as dist

    out = {}
    if b.c["level"] == "single":
        for n, l, s in zip(b.names, b.locs, b.scales):
            out[n] = dist.Normal(l, s)
        return out
    for n, l, s, q in zip(b.names, b.locs, b.scales, b.sscales):
        d = l.dim()
        out[n + b.sfx[0]] = dist.Normal(l, s).to_event(d)
        out[n + b.sfx[1]] = dist.HalfNormal(q).to_event(d)
        if n + b.sfx[0] in tr.nodes and n + b.sfx[1] in tr.nodes:
            m, v = tr.nodes[n + b.sfx[0]]["value"], tr.nodes[n + b.sfx[1]]["value"]
            out[n] = dist.Normal(m.expand((nt,) + l.shape), v.expand((nt,) + l.shape)).to_event(d)
        else:
            out[n] = None
    if b.c["inoise"]:
        out["eps"] = dist.HalfNormal(b.eps).to_event(b.eps.dim())
    return out


def noise(b, tr, typ):
    e = tr.nodes["eps"]["value"] if b.c["inoise"] else b.eps
    return e[typ] if b.c["tnoise"] else e.expand(typ.shape)


def latents(tr):
    return [n for n, s in tr.nodes.items() if s["type"] == "sample" and not s["is_observed"] and type(s["fn"]).__name__ != "_Subsample"]


def check_trace(b, tr, data, res, seed, how, ctx, where, given=None):
    """every site of one execution against the declaration"""
    from pyoptmat import experiments

    x, _ = data
    nt, ntime = x[0].shape[2], x[0].shape[1]
    dec = declared(b, tr, nt)
    got = latents(tr)
    want = set(dec) | ({"obs"} if res is None else set())
    if set(got) != want or len(got) != len(set(got)):
        raise Violation("wrong-sites", f"{where}: {sorted(set(got) ^ want)}")
    # shapes, distributions, probabilities
    for n in dec:
        s = tr.nodes[n]
        v, d = s["value"], dec[n]
        if tuple(v.shape) != tuple(d.batch_shape + d.event_shape):
            raise Violation("wrong-shape", f"{where}: {n} {tuple(v.shape)} instead of {tuple(d.batch_shape + d.event_shape)}")
        if not torch.isfinite(v).all():
            raise Violation("not-finite", f"{where}: {n}")
        probe = v.detach() * 1.1 + 0.01
        lp, lq = s["fn"].log_prob(probe), d.log_prob(probe)
        if lp.shape != lq.shape or not torch.allclose(lp, lq, rtol=1e-9, atol=1e-9):
            raise Violation("wrong-prior", f"{where}: {n}")
    # observation
    s = tr.nodes["obs"]
    if len(b.calls) != 1:
        raise Violation("model-built-twice", f"{where}: maker called {len(b.calls)} times")
    args, kw = b.calls[0]
    for n, a in zip(b.names, args):
        if not torch.equal(a, tr.nodes[n]["value"]):
            raise Violation("wrong-parameter", f"{where}: {n} handed to the maker is not the value drawn")
    if len(args) != len(b.names):
        raise Violation("wrong-parameter", f"{where}: {len(args)} arguments")
    with torch.no_grad():
        raw = b.maker(*[tr.nodes[n]["value"] for n in b.names], **kw).solve_both(x[0][0], x[0][1], x[0][2], x[3])[:, :, 0]
        loc = experiments.convert_results(raw, x[1], x[2])
        if b.c["nan"]:
            loc = torch.nan_to_num(loc)
    sd = noise(b, tr, x[2]).detach().expand(ntime, nt)
    yv = s["value"].detach()
    if tuple(yv.shape) != (ntime, nt):
        raise Violation("wrong-shape", f"{where}: obs {tuple(yv.shape)}")
    f = base(s["fn"])
    floc, fsd = torch.broadcast_tensors(f.loc.detach(), f.scale.detach())
    if not (fsd.expand(ntime, nt) == sd).all():
        raise Violation("wrong-noise", f"{where}: {fsd[0].tolist()} instead of {sd[0].tolist()}")
    if not torch.allclose(floc.expand(ntime, nt), loc, rtol=1e-9, atol=1e-9):
        raise Violation("wrong-mean", where)
    if res is not None and not torch.equal(yv, res):
        raise Violation("wrong-observation", where)
    w = torch.ones(nt)
    if b.w is not None:
        for j, t in enumerate(x[2].tolist()):
            name = [k for k, q in zoo.TYPE_CODE.items() if q == t][0]
            w[j] = b.w[name]
    sc = s["scale"]
    sc = sc if isinstance(sc, torch.Tensor) else torch.tensor(float(sc))
    if not torch.allclose(sc.expand(ntime, nt), w.expand(ntime, nt), rtol=1e-12):
        raise Violation("wrong-weight", f"{where}: {sc.tolist()} instead of {w.tolist()}")
    tr.compute_log_prob()
    lp = (-0.5 * ((yv - loc) / sd) ** 2 - torch.log(sd) - 0.5 * math.log(2 * math.pi)) * w
    if not torch.allclose(s["log_prob_sum"].detach(), lp.sum(), rtol=1e-9, atol=1e-7):
        raise Violation("wrong-likelihood", f"{where}: {s['log_prob_sum'].item()} instead of {lp.sum().item()}")
    # the same stream, drawn by the declaration
    if seed is not None:
        torch.manual_seed(seed)
        for n in [q for q in tr.nodes if q in got]:
            d = s["fn"] if n == "obs" else dec[n]
            if n == "obs":
                import pyro.distributions as dist

                d = dist.Normal(floc.expand(ntime, nt), sd)
            v = d.sample()
            if not torch.equal(v, tr.nodes[n]["value"].detach()):
                raise Violation("wrong-draw", f"{where}: {n} is not the next draw from its prior")
        ctx.probe("streams-matched")
    for n in dec:
        ctx.tensor(n, tr.nodes[n]["value"])
    ctx.tensor("obs", yv)
    ctx.probe("sites-checked", len(dec) + 1)


def execute(c, ctx):
    try:
        b = Build(c)
    except Exception as e:
        raise Violation("clean-raises", f"construction: {type(e).__name__}: {str(e)[:160]}")
    prev, seen = "start", {}
    for q, (what, seed, inject) in enumerate(c["events"]):
        where = f"{c['level']} execution {q} {what} draws {inject}"
        try:
            one(b, c, ctx, what, seed, inject, where, seen)
        except (Violation, CaseTimeout):
            raise
        except Exception as e:
            raise Violation("clean-raises", f"{where}: {type(e).__name__}: {str(e)[:200]}")
        ctx.event(what, inject)
        ctx.reach((c["level"], c["real"], c["tnoise"], c["inoise"], c["weights"], prev, what))
        if inject != "none":
            ctx.fault("draw-" + inject)
        prev = what
    ctx.nontrivial = len(c["events"]) > 1
    ctx.sim_time += len(c["events"])


def one(b, c, ctx, what, seed, inject, where, seen):
    import contextlib

    import pyro
    from pyro import poutine

    data = b.data[1] if what == "other-data" else b.data[0]
    x, res = data
    if what in ("guide", "train", "through-guide") and b.guide is None:
        b.guide = b.m.make_guide()
        b.guide(*b.data[0][0])
    if what == "other-data" and b.guide is not None and c["real"] and c["cal"]["solver"]["adjoint"]:
        # per-test guide parameters belong to the first data set
        data = b.data[0]
        x, res = data
    b.calls = []
    ctl = contextlib.nullcontext() if inject == "none" or c["real"] else Normals(inject)
    if what in ("draw", "cond", "other-data", "replay-seed"):
        y = res if what == "cond" or (what == "other-data" and seed % 2) else None
        with ctl:
            torch.manual_seed(seed)
            tr = poutine.trace(b.m).get_trace(*x, y) if y is not None or seed % 3 else poutine.trace(b.m).get_trace(*x)
            calls = b.calls
            check_trace(b, tr, data, y, seed, inject, ctx, where)
        if what == "replay-seed":
            b.calls = []
            with Normals(inject) if inject != "none" and not c["real"] else contextlib.nullcontext():
                torch.manual_seed(seed)
                t2 = poutine.trace(b.m).get_trace(*x) if not seed % 3 else poutine.trace(b.m).get_trace(*x, y)
            for n in latents(tr):
                if not torch.equal(tr.nodes[n]["value"], t2.nodes[n]["value"]):
                    raise Violation("not-reproducible", f"{where}: {n}")
        elif inject == "none":
            # another execution is another draw
            for n in latents(tr):
                v = env.bits(tr.nodes[n]["value"])
                if tr.nodes[n]["value"].numel() and seen.get(n, (None, None))[1] == v and seen[n][0] != seed:
                    raise Violation("not-fresh", f"{where}: {n} drawn again with the same value")
                seen[n] = (seed, v)
        return
    torch.manual_seed(seed)
    if what == "train":
        if b.svi is None:
            from pyro.infer import SVI, Trace_ELBO

            lr = 1e-4 if c["real"] else [0.01, 0.5, 5.0][seed % 3]
            b.svi = SVI(b.m, b.guide, pyro.optim.Adam({"lr": lr}), loss=Trace_ELBO())
        for _ in range(1 if c["real"] else 3):
            b.svi.step(*x, res)
        ctx.probe("training-steps")
        return
    # the guide proposes exactly the model's unobserved quantities
    gt = poutine.trace(b.guide).get_trace(*x, res)
    want = set(declared(b, gt, x[0].shape[2]))
    got = latents(gt)
    if set(got) != want or len(got) != len(set(got)):
        raise Violation("guide-sites", f"{where}: {sorted(set(got) ^ want)}")
    for n in got:
        v = gt.nodes[n]["value"]
        if not torch.isfinite(v).all():
            raise Violation("guide-not-finite", f"{where}: {n}")
        if (n.endswith(b.sfx[1]) or n == "eps") and not (v > 0).all():
            raise Violation("guide-not-positive", f"{where}: {n} {v.tolist()}")
    b.calls = []
    tr = poutine.trace(poutine.replay(b.m, gt)).get_trace(*x, res)
    for n in got:
        if tuple(tr.nodes[n]["value"].shape) != tuple(gt.nodes[n]["value"].shape):
            raise Violation("guide-shape", f"{where}: {n}")
    check_trace(b, tr, data, res, None, inject, ctx, where)
    if what == "guide":
        before = {n: env.bits(p) for n, p in pyro.get_param_store()._params.items()}
        g2 = poutine.trace(b.guide).get_trace(*x)
        for n in got:
            if not torch.equal(g2.nodes[n]["value"], gt.nodes[n]["value"]):
                raise Violation("guide-not-fixed", f"{where}: {n}")
        if before != {n: env.bits(p) for n, p in pyro.get_param_store()._params.items()}:
            raise Violation("guide-not-fixed", where)


def shrink(c):
    for ev in shrink_list(c["events"], 1):
        yield dict(c, events=ev)
    for k, v in (("tnoise", False), ("inoise", False), ("weights", None), ("suffix", False), ("nan", False)):
        if c[k] != v:
            yield dict(c, **{k: v})
    if not c["real"]:
        for ps in shrink_list(c["params"], 1):
            yield dict(c, params=ps)
    for i, e in enumerate(c["events"]):
        if e[2] != "none":
            yield dict(c, events=c["events"][:i] + [[e[0], e[1], "none"]] + c["events"][i + 1 :])
