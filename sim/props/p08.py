"""P08: a crashed calibration resumes exactly from its last durable checkpoint."""
import torch

from sim import core, env, zoo
from sim.core import CaseTimeout, Skip, Violation, shrink_list

RUNS = {"quick": 130, "thorough": 9000}
RULE = "one run = one calibration executed without crash and again with crashes, failing checkpoint writes and restarts in fresh objects; every step after a restart is compared bit for bit; distinct = distinct event-log digest (bits of all losses and parameters plus the crash sequence), nontrivial = at least one restart from a checkpoint happened"
TIME = "optimisation steps executed (counted as 1 s each)"
MEASURE = "distinct (kind of calibration, optimiser, crash place, disk fault, step resumed from) tuples"
REAL = ["pyoptmat.optimize (deterministic, statistical and hierarchical models, guide)", "pyoptmat.experiments", "pyoptmat.models", "pyoptmat.ode", "pyoptmat.chunktime", "torch.optim", "pyro SVI and optimisers"]
STUBS = ["disk (whole files with checksum; lost, torn, flipped and refused writes)", "process crash (exception at a chosen line, tensor operation, callback or step boundary; all objects dropped, process-wide state reset)"]
ASSUMPTIONS = ["a checkpoint contains what the statement names: parameters, optimiser state and random state", "a reader recognises damaged checkpoints by their checksum"]
CHUNK = 2

OPTS = ["sgd", "sgd-momentum", "adam", "adam", "adamw", "rmsprop", "lbfgs"]


def generate(rng, tier, i):
    kind = rng.choice(["det", "det", "det", "integrator", "integrator", "toy", "hier", "hier", "auto", "statauto"])
    n = rng.randint(4, 6)
    N = rng.randint(2, 4)
    c = {"kind": kind, "N": N, "opt": rng.choice(OPTS), "every": rng.choice([1, 1, 1, 2]), "seed": rng.randrange(10**6)}
    if kind == "det":
        c["cal"] = zoo.gen_calibration(rng, nb=rng.choice([2, 2, 3]), n=n)
        c["mini"] = rng.random() < 0.6
    elif kind == "integrator":
        c["w"] = zoo.gen_workload(rng, nb=rng.choice([1, 2, 2]), n=n, light=True)
        c["mini"] = rng.random() < 0.4
    elif kind == "toy":
        spec = zoo.gen_toy(rng)
        nt = rng.randint(4, 9)
        nb = rng.choice([1, 2, 3])
        s = zoo.gen_solver(rng, nt)
        if not s["adjoint"] and s["kw"]["linear_solve_method"] == "direct":
            s["kw"]["direct_solve_method"] = "thomas"
        c.update(ode=spec, times=zoo.gen_times(rng, nt, nb), y0=[[zoo.rnd(rng, 0.05, 0.9) for _ in range(spec["size"])] for _ in range(nb)], sol=s, mini=rng.random() < 0.5)
    else:
        c["cal"] = zoo.gen_calibration(rng, nb=rng.choice([1, 2, 2]), n=n, hier=True, adjoint=None if kind == "hier" else False)
        c["opt"] = rng.choice(["adam", "adam", "clipped", "sgd-momentum"])
        c["particles"] = rng.choice([1, 1, 2]) if kind != "hier" else 1
        c["inoise"] = kind != "statauto" and rng.random() < 0.5
        c["tnoise"] = rng.random() < 0.5
        c["eps"] = rng.choice([2.0, 0.5, 1000.0, 1000.0])
        c["fast"] = rng.random() < 0.6
        c["weights"] = rng.random() < 0.4
        c["mini"] = False
    for x in ("cal", "w"):
        if x in c:
            # resuming is compared bit for bit: loose tolerances do
            c[x]["solver"]["kw"].update(rtol=1e-6, atol=1e-8, miter=15)
    c["crashes"] = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        how = rng.choice(["before", "after", "line", "line", "op", "op", "maker", "during-write"])
        c["crashes"].append([rng.randrange(N), how, round(rng.random() ** 2, 4), rng.randrange(1000)])
    c["disk"] = [rng.choice(["ok"] * 6 + ["lost", "torn", "flip", "enospc"]) for _ in range(2 * N + 2)]
    return c


def own_mean(site=None):
    """init_to_mean of pyro hands out the prior's own tensor: two guide parameters and the
    prior would share memory"""
    from functools import partial

    from pyro.infer.autoguide import init_to_mean

    if site is None:
        return partial(own_mean)
    v = init_to_mean(site)
    return v.clone() if isinstance(v, torch.Tensor) else v


class Crash(BaseException):
    pass


# --------------------------------------------------------------------- programs
class Program:
    """The user's training script.  ``fresh`` is a number: a different one builds the same
    program from other starting values (they must not matter after a restart)."""

    def __init__(self, c, fresh, hook):
        self.c = c
        self.hook = hook
        self.fresh = fresh
        core.reset_world(c["seed"])
        getattr(self, "build_" + c["kind"])(c)

    def move(self, p):
        return p if self.fresh == 0 else p * (1 + 0.01 * self.fresh)

    # -- plain torch
    def torch_opt(self, ps):
        o = self.c["opt"]
        # steps relative to the size of each parameter, so that nothing diverges
        low = [max(p.detach().abs().min().item(), 1e-9) for p in ps]
        lin = [{"params": [p], "lr": 1e-3 * x} for p, x in zip(ps, low)]
        quad = [{"params": [p], "lr": 1e-3 * x * x} for p, x in zip(ps, low)]
        mk = {
            "sgd": lambda: torch.optim.SGD(quad),
            "sgd-momentum": lambda: torch.optim.SGD(quad, momentum=0.9),
            "adam": lambda: torch.optim.Adam(lin),
            "adamw": lambda: torch.optim.AdamW(lin),
            "rmsprop": lambda: torch.optim.RMSprop(lin),
            "lbfgs": lambda: torch.optim.LBFGS(ps, lr=1e-8, max_iter=2),
        }
        self.opt = mk[o]()

    def build_det(self, c):
        from pyoptmat import optimize

        maker, names, ics = zoo.make_maker(c["cal"])

        def mk(*a, **k):
            self.hook()
            return maker(*a, **k)

        self.m = optimize.DeterministicModel(mk, names, [self.move(p) for p in ics])
        self.data = zoo.stack_tests(c["cal"]["tests"])
        # what is to be matched: the prediction for slightly different parameters
        ref = optimize.DeterministicModel(maker, names, [p * 1.02 for p in ics])
        with torch.no_grad():
            self.target = ref(*self.data)
        self.torch_opt(list(self.m.parameters()))

        def loss(idx):
            d, cy, ty, co = self.data
            y = self.m(d[:, :, idx], cy[:, idx], ty[idx], co[idx])
            t = self.target[:, idx]
            return (((y - t) / (t.abs().amax(dim=0, keepdim=True) + 1e-3)) ** 2).mean()

        self.loss, self.nb = loss, len(c["cal"]["tests"])

    def build_integrator(self, c):
        from pyoptmat import models

        w = c["w"]
        t, T, d, con = zoo.stack_history(w["hist"])
        ref, _ = zoo.make_model(w["model"])
        with torch.no_grad():
            self.target = models.ModelIntegrator(ref, use_adjoint=False, **dict(w["solver"]["kw"], direct_solve_method="thomas")).solve_both(t, T, d, con) * 1.05
        self.m, pb = zoo.make_model(w["model"], zoo.PBuild("param"))
        with torch.no_grad():
            for p in pb.leaves:
                p.copy_(self.move(p.detach().clone()))
        # one integrator object for the whole calibration
        I = models.ModelIntegrator(self.m, use_adjoint=w["solver"]["adjoint"], **w["solver"]["kw"])
        self.I = I
        self.torch_opt(pb.leaves)

        def loss(idx):
            self.hook()
            y = I.solve_both(t[:, idx], T[:, idx], d[:, idx], con[idx])
            r = self.target[:, idx]
            return (((y - r) / (r.abs().amax(dim=0, keepdim=True) + 1e-3)) ** 2).mean()

        self.loss, self.nb = loss, len(w["hist"])
        missing = [n for n, p in zip(pb.names, pb.leaves) if not any(p is q for q in self.m.parameters())]
        if missing:
            raise Violation("parameter-not-saved", f"{missing} not among the model's parameters")

    def build_toy(self, c):
        from pyoptmat import ode

        g = torch.Generator().manual_seed(c["seed"])
        s = c["ode"]
        from torch import nn

        ps = [nn.Parameter(self.move(torch.rand(s["size"], generator=g) + 0.5)), nn.Parameter(self.move(0.5 * torch.rand(s["size"], generator=g) + 0.1))]
        outer = self

        class F(zoo.ToyODE):
            def forward(self, t, y):
                outer.hook()
                return super().forward(t, y)

        self.m = F(s, ps)
        self.torch_opt(ps)
        y0 = torch.tensor(c["y0"])
        t = torch.tensor(c["times"])
        fn = ode.odeint_adjoint if c["sol"]["adjoint"] else ode.odeint

        def loss(idx):
            y = fn(self.m, y0[idx], t[:, idx], **c["sol"]["kw"])
            return ((y - 0.3) ** 2).mean()

        self.loss, self.nb = loss, len(c["y0"])

    # -- pyro
    def build_hier(self, c):
        self.pyro(c, "own")

    def build_auto(self, c):
        self.pyro(c, "auto")

    def build_statauto(self, c):
        self.pyro(c, "stat")

    def pyro(self, c, guide):
        import pyro
        from pyro.infer import SVI, Trace_ELBO
        from pyro.infer.autoguide import AutoDelta, AutoNormal
        from pyoptmat import experiments, optimize

        maker, names, ics = zoo.make_maker(c["cal"])

        def mk(*a, **k):
            self.hook()
            return maker(*a, **k)

        e = c.get("eps", 2.0)
        eps = torch.full((len(experiments.exp_map),), e) if c["tnoise"] else torch.tensor(e)
        sc = [0.02 * p.abs() + 1e-4 for p in ics]
        ss = [0.01 * p.abs() + 1e-4 for p in ics]
        if guide == "stat":
            self.m = optimize.StatisticalModel(mk, names, ics, sc, eps)
        else:
            w = {t: 1.0 + 0.5 * i for t, i in zoo.TYPE_CODE.items()} if c["weights"] else None
            self.m = optimize.HierarchicalStatisticalModel(mk, names, ics, sc, ss, eps, include_noise=c["inoise"], weights=w)
        self.guide = {"own": lambda: self.m.make_guide(), "auto": lambda: AutoDelta(self.m, init_loc_fn=own_mean), "stat": lambda: AutoNormal(self.m, init_scale=0.01, init_loc_fn=own_mean)}[guide]()
        self.data = zoo.stack_tests(c["cal"]["tests"])
        self.res = torch.rand(self.data[1].shape, generator=torch.Generator().manual_seed(5)) * 50
        # small steps, except for an inferred noise that may shrink or grow a lot
        def lr(name):
            return 0.2 if c.get("fast") and "eps" in name else 1e-3

        if c["opt"] == "adam":
            self.opt = pyro.optim.Adam(lambda name: {"lr": lr(name)})
        elif c["opt"] == "clipped":
            self.opt = pyro.optim.ClippedAdam(lambda name: {"lr": lr(name), "lrd": 0.9})
        else:
            self.opt = pyro.optim.SGD({"lr": 1e-7, "momentum": 0.9})
        self.svi = SVI(self.m, self.guide, self.opt, loss=Trace_ELBO(num_particles=c["particles"]))

    # -- one optimisation step
    def step(self):
        if hasattr(self, "svi"):
            return self.svi.step(*self.data, self.res)
        nb = self.nb
        idx = torch.randperm(nb)[: max(1, nb - 1)].sort().values if self.c["mini"] else torch.arange(nb)

        def closure():
            self.opt.zero_grad()
            v = self.loss(idx)
            v.backward()
            return v

        return float(self.opt.step(closure))

    def params(self):
        import pyro

        if hasattr(self, "svi"):
            s = pyro.get_param_store()
            return {k: s._params[k].detach().clone() for k in sorted(s._params)}
        return {k: p.detach().clone() for k, p in self.m.named_parameters()}

    # -- checkpoints
    def save(self, step):
        import pyro

        d = {"step": step, "rng": torch.get_rng_state()}
        if hasattr(self, "svi"):
            d["store"] = pyro.get_param_store().get_state()
            d["opt"] = self.opt.get_state()
        else:
            d["model"] = self.m.state_dict()
            d["opt"] = self.opt.state_dict()
        return env.pack(d)

    def load(self, b):
        import pyro

        d = env.unpack(b)
        if hasattr(self, "svi"):
            pyro.get_param_store().set_state(d["store"])
            self.opt.set_state(d["opt"])
        else:
            self.m.load_state_dict(d["model"])
            self.opt.load_state_dict(d["opt"])
        torch.set_rng_state(d["rng"])
        return d["step"]


def unrelated(k):
    """another calculation in the new process, before the calibration resumes"""
    import random

    from pyoptmat import models

    rng = random.Random(k)
    w = zoo.gen_workload(rng, nb=rng.choice([1, 2]), n=5, light=True, flow="perfect", dmg="plain", ctl=0, adjoint=True)
    m, pb = zoo.make_model(w["model"], zoo.PBuild("param"))
    zoo.integrate_workload(w, m).sum().backward()
    torch.rand(k % 17 + 1)


# -------------------------------------------------------------------- execution
def record(P):
    return {k: env.bits(v) for k, v in P.params().items()}


def execute(c, ctx):
    N = c["N"]
    where = f"{c['kind']} {c['opt']}"
    # the run that never crashed
    try:
        P = Program(c, 0, lambda: None)
        clean = []
        for _ in range(N):
            v = P.step()
            clean.append((v, record(P)))
            ctx.sim_time += 1
    except Violation:
        raise
    except CaseTimeout:
        raise
    except Exception as e:
        raise Violation("clean-raises", f"{where}: {type(e).__name__}: {str(e)[:160]}")
    if not all(v == v and abs(v) != float("inf") for v, _ in clean):
        ctx.probe("loss-not-finite")
    if clean[0][1] == clean[-1][1]:
        ctx.probe("parameters-did-not-move")
    ctx.event("clean", [v for v, _ in clean])
    del P
    # the run with crashes
    disk = env.SimDisk(ctx, c["disk"])
    crashes = [list(x) for x in c["crashes"]]
    life = 0
    ctx.nontrivial = False
    while True:
        hooks = {"at": None}

        def hook():
            if hooks["at"] is not None:
                hooks["at"] -= 1
                if hooks["at"] < 0:
                    hooks["at"] = None
                    raise Crash()

        P = Program(c, life, hook) if life == 0 else None
        start = 0
        if life:
            unrelated(c["seed"] + life)
            P = None
            for name in reversed(disk.order):
                b = disk.read(name)
                if b is not None:
                    P = Program(c, life, hook)
                    unrelated_rng(c["seed"] + life)
                    start = P.load(b)
                    ctx.nontrivial = True
                    break
                ctx.probe("damaged-checkpoint-skipped")
            if P is None:
                ctx.probe("restart-from-scratch")
                P = Program(c, 0, hook)
            ctx.event("resume", life, start)
            got = record(P)
            if start:
                compare(ctx, got, clean[start - 1][1], f"{where} restored after step {start}", "restored-parameters-differ")
        crash = crashes.pop(0) if crashes else None
        try:
            for k in range(start, N):
                how = crash[1] if crash and crash[0] <= k else None
                if how == "before":
                    raise Crash()
                if how == "maker":
                    hooks["at"] = crash[3] % 3
                if how == "line":
                    with env.LineTracer(1 + int(crash[2] * 6000) + crash[3] % 50, Crash):
                        v = P.step()
                elif how == "op":
                    with env.OpTracer(1 + int(crash[2] * 9000) + crash[3] % 50, Crash):
                        v = P.step()
                else:
                    v = P.step()
                ctx.sim_time += 1
                hooks["at"] = None
                if not same(v, clean[k][0]):
                    raise Violation("loss-differs", f"{where}: step {k + 1}, resumed from {start}: {v!r} instead of {clean[k][0]!r}")
                compare(ctx, record(P), clean[k][1], f"{where}: step {k + 1}, resumed from {start}", "parameters-differ")
                ctx.event("step", k, v)
                ctx.probe("steps-compared")
                if how == "after":
                    raise Crash()
                if (k + 1) % c["every"] == 0:
                    try:
                        if how == "during-write":
                            disk.faults = disk.faults[: disk.writes] + ["torn"] + disk.faults[disk.writes + 1 :]
                        disk.write(f"ck-{k + 1}", P.save(k + 1))
                    except OSError:
                        ctx.probe("checkpoint-refused")
                if how:
                    raise Crash()
            break
        except Crash:
            ctx.fault("crash-" + crash[1])
            ctx.reach((c["kind"], c["opt"], crash[1], tuple(sorted(set(c["disk"][: disk.writes]))), start))
            hooks["at"] = None
        life += 1
        if life > len(c["crashes"]) + 1:
            raise Violation("no-progress", where)
    ctx.reach((c["kind"], c["opt"], "end", start))


def unrelated_rng(k):
    torch.manual_seed(k)
    torch.rand(k % 13 + 1)


def same(a, b):
    return a == b or (a != a and b != b)


def compare(ctx, got, want, where, cls):
    if sorted(got) != sorted(want):
        raise Violation(cls, f"{where}: parameters {sorted(set(got) ^ set(want))}")
    for k in got:
        if got[k] != want[k]:
            raise Violation(cls, f"{where}: {k}")


def shrink(c):
    for cr in shrink_list(c["crashes"], 1):
        yield dict(c, crashes=cr)
    if any(d != "ok" for d in c["disk"]):
        yield dict(c, disk=[])
    for i, x in enumerate(c["crashes"]):
        if x[1] not in ("before", "after"):
            yield dict(c, crashes=c["crashes"][:i] + [[x[0], "after", 0, 0]] + c["crashes"][i + 1 :])
    if c["N"] > 2:
        yield dict(c, N=c["N"] - 1, crashes=[[min(x[0], c["N"] - 2)] + x[1:] for x in c["crashes"]])
    if c["opt"] != "sgd-momentum":
        yield dict(c, opt="sgd-momentum")
