"""P03: every backward pass returns the gradient of its own forward pass or raises."""
import gc

import torch

from sim import env, ref, zoo
from sim.core import Skip, Violation, shrink_list

RUNS = {"quick": 360, "thorough": 12000}
RULE = "one run = one history of forward, backward, update, freeze and overwrite events on one model; distinct = distinct event-log digest (bits of all results and gradients), nontrivial = at least one gradient was compared with the reference"
TIME = "time integrated by all forward passes (units of the loading histories)"
MEASURE = "distinct (problem kind, differentiation, disturbance before a backward pass, outcome) tuples"
REAL = ["pyoptmat.ode", "pyoptmat.chunktime", "pyoptmat.models", "pyoptmat.flowrules/hardening/damage/temperature", "pyoptmat.neuralode", "pyoptmat.utility"]
STUBS = ["toy ODEs written in the harness (analytic Jacobians) next to the real constitutive models", "optimizer steps are plain in-place updates"]
ASSUMPTIONS = [
    "reference: implicit function theorem on the one-step recursion with automatic differentiation of the rate equations only (sim/ref.py)",
    "changes through tensor.data (which torch cannot see) are not part of the histories",
    "plain backpropagation through parallel cyclic reduction is refused by torch and not exercised",
    "runs whose clean forward pass signals non-convergence are skipped",
]
CHUNK = 3


# ------------------------------------------------------------------- generation
def gen_problem(rng, tier):
    if rng.random() < 0.55:
        net = rng.random() < 0.25
        spec = zoo.gen_net(rng) if net else zoo.gen_toy(rng)
        nb, n = rng.choice([1, 2, 3, 5]), rng.randint(3, 12)
        if tier == "thorough" and rng.random() < 0.2:
            n = rng.randint(12, 40)
        sols = []
        for _ in range(2):
            s = zoo.gen_solver(rng, n)
            if not s["adjoint"] and s["kw"]["linear_solve_method"] == "direct":
                s["kw"]["direct_solve_method"] = "thomas"
                s["kw"].pop("direct_solve_min_size", None)
            s["kw"].update(rtol=1e-12, atol=1e-12, miter=40)
            sols.append(s)
        return {
            "kind": "toy",
            "ode": spec,
            "times": [zoo.gen_times(rng, n, nb) for _ in range(2)],
            "y0": [[zoo.rnd(rng, 0.05, 0.9) for _ in range(spec["size"])] for _ in range(nb)],
            "y0g": rng.choice(["no", "leaf", "chain"]),
            "style": "param" if net else rng.choice(["param", "param", "given", "dup"]),
            "sols": sols,
        }
    W = zoo.gen_workload(rng)
    W2 = zoo.gen_workload(rng, nb=len(W["hist"]), n=len(W["hist"][0]["times"]), ctl=W["ctl"], flow="perfect", dmg="plain")
    s2 = W2["solver"]
    return {
        "kind": "model",
        "w": W,
        "hist2": [h for h in W2["hist"]],
        "style": rng.choice(["param", "param", "given"]),
        "sols": [W["solver"], s2],
        "entry": rng.choice(["both", "own"]),
    }


def generate(rng, tier, i):
    p = gen_problem(rng, tier)
    ev = []
    nf = 0
    n = rng.randint(2, 9 if p["kind"] == "toy" else 6)
    for k in range(n):
        u = rng.random()
        if nf == 0 or u < (0.3 if nf < 3 else 0.1):
            ev.append(["fwd", rng.randrange(2), rng.randrange(2)])
            nf += 1
        elif u < 0.65:
            ev.append(
                [
                    "bwd",
                    rng.randrange(nf),
                    rng.randrange(10**6),
                    rng.choice(["full", "full", "last", "one", "sparse"]),
                    rng.choice(["grad", "grad", "backward", "nograd", "double", "some", "pair"]),
                    rng.random() < 0.6,
                    rng.choice([0, 0, 0, 0, -60, -44, -20, 30]),
                ]
            )
        elif u < 0.73:
            ev.append(["update", rng.choice([0, 0, 1, -1]), rng.randrange(10**6)])
        elif u < 0.80:
            ev.append(["freeze", rng.randrange(20)])
        elif u < 0.84:
            ev.append(["unfreeze"])
        elif u < 0.93:
            ev.append(["buffer", rng.choice(["times", "temps", "data", "y0", "control"]), rng.randrange(2)])
        elif u < 0.97:
            ev.append(["result", rng.randrange(nf)])
        else:
            ev.append(["gc"])
    ev.append(["bwd", rng.randrange(max(nf, 1)), rng.randrange(10**6), "full", "grad", False])
    p["events"] = ev
    return p


# -------------------------------------------------------------------- execution
class Problem:
    """The user's side: model, parameters, data buffers."""

    def __init__(self, c):
        self.c = c
        self.flipped = []
        if c["kind"] == "toy":
            spec = c["ode"]
            self.bufs = [{"times": torch.tensor(t)} for t in c["times"]]
            if spec["kind"] == "net" or c["style"] in ("param", "dup"):
                self.f = zoo.make_ode(spec)
                self.leaves = list(self.f.parameters())
                self.names = [f"p{i}" for i in range(len(self.leaves))]
                self.extra = [self.leaves[0]] if c["style"] == "dup" else None
            else:
                self.leaves = [torch.tensor(spec["a"], requires_grad=True), torch.tensor(spec["b"], requires_grad=True)]
                self.names = ["a", "b"]
                self.f = None
                self.extra = True
            y = torch.tensor(c["y0"])
            self.y0leaf = y.clone().requires_grad_(c["y0g"] != "no")
        else:
            mode = c["style"]
            self.bufs = []
            for h in (c["w"]["hist"], c["hist2"]):
                t, T, d, con = zoo.stack_history(h)
                self.bufs.append({"times": t, "temps": T, "data": d, "control": con})
            pb = zoo.PBuild("param")
            self.model, _ = zoo.make_model(c["w"]["model"], pb)
            self.names = pb.names
            if mode == "param":
                self.leaves = pb.leaves
            else:
                self.leaves = [p.detach().clone().requires_grad_(True) for p in pb.leaves]
                self.model = None
            self.y0leaf = None

    def chain(self, p):
        """In 'given' style the model sees a function of the leaves, not the leaves."""
        return p * 1.0

    def forward(self, sol, b):
        from pyoptmat import models, ode

        kw = dict(sol["kw"])
        c = self.c
        if c["kind"] == "toy":
            fn = ode.odeint_adjoint if sol["adjoint"] else ode.odeint
            y0 = self.y0leaf
            if c["y0g"] == "chain":
                y0 = torch.sin(y0) + 0.5
            f = self.f
            if f is None:
                ps = [self.chain(p) for p in self.leaves]
                f = zoo.ToyODE(c["ode"], ps)
                kw["extra_params"] = ps
            elif self.extra is not None:
                kw["extra_params"] = self.extra
            return fn(f, y0, self.bufs[b]["times"], **kw)
        m = self.model
        if m is None:
            ps = [self.chain(p) for p in self.leaves]
            m, _ = zoo.make_model(c["w"]["model"], zoo.PBuild("given", ps))
            kw["extra_params"] = ps
        integ = models.ModelIntegrator(m, use_adjoint=sol["adjoint"], **kw)
        B = self.bufs[b]
        t, T, d, con = B["times"], B["temps"], B["data"], B["control"]
        if c["entry"] == "own" and bool((con == 0).all()):
            return integ.solve_strain(t, d, T)
        if c["entry"] == "own" and bool((con == 1).all()):
            return integ.solve_stress(t, d, T)
        return integ.solve_both(t, T, d, con)

    def snapshot(self, b):
        s = {
            "params": [p.detach().clone() for p in self.leaves],
            "req": [p.requires_grad for p in self.leaves],
            "bufs": {k: v.clone() for k, v in self.bufs[b].items()},
        }
        if self.y0leaf is not None:
            s["y0"] = self.y0leaf.detach().clone()
        return s


def reference(c, snap, y, gy, method):
    """Gradient (params, y0leaf or None) and trajectory error, from a fresh copy."""
    ps = [p.clone().requires_grad_(True) for p in snap["params"]]
    B = snap["bufs"]
    if c["kind"] == "toy":
        spec = c["ode"]
        if spec["kind"] == "net":
            f = zoo.make_ode(spec)
            with torch.no_grad():
                for q, p in zip(f.parameters(), ps):
                    q.copy_(p)
            ps = list(f.parameters())
        else:
            f = zoo.ToyODE(spec, ps)
        rate = lambda t, x: f(t, x)[0]
    else:
        m, _ = zoo.make_model(c["w"]["model"], zoo.PBuild("given", ps))
        rate = ref.both_rate_fn(m, B["times"], B["temps"], B["data"], B["control"])
    try:
        dl = ref.correction(rate, y, B["times"], method)
        gp, g0 = ref.gradients(rate, y, B["times"], gy, ps, method)
    except ref.RefFail as e:
        raise Skip(str(e))
    err = (dl.abs() / (y.detach().abs().amax(dim=(0, 1), keepdim=True) + (1e-6 if c["kind"] == "toy" else 1e-3))).max().item()
    g0 = g0.detach()
    if c["kind"] == "toy" and c["y0g"] == "chain":
        g0 = g0 * torch.cos(snap["y0"])
    return [g.detach() for g in gp], g0, err


def cotangent(y, seed, shape):
    g = torch.Generator().manual_seed(seed)
    gy = torch.rand(y.shape, generator=g) * 2 - 1
    if shape == "last":
        z = torch.zeros_like(gy)
        z[-1] = gy[-1]
        gy = z
    elif shape == "one":
        z = torch.zeros_like(gy)
        k = int(torch.randint(1, y.shape[0], (1,), generator=g))
        z[k, :, 0] = gy[k, :, 0]
        gy = z
    elif shape == "sparse":
        gy = gy * (torch.rand(y.shape, generator=g) < 0.2)
    return gy / (y.detach().abs().amax(dim=(0, 1), keepdim=True) + 1e-3)


def tolerances(c, adjoint):
    if c["kind"] == "toy":
        return (1e-6 if adjoint else 1e-4), 1e-7
    if c["w"]["ctl"] != 0:
        # the rate inversion of stress control is differentiated through its own Newton
        # iterations, which stop at the package's fixed tolerance of 1e-6
        return 5e-3, 2e-6
    return (3e-4 if adjoint else 3e-3), 2e-6


def compare(c, ctx, got, want, params, adjoint, where):
    tol, _ = tolerances(c, adjoint)
    S = max([(w * p).abs().max().item() for w, p in zip(want, params)] + [1e-30])
    for nm, g, w, p in zip(where[1], got, want, params):
        if g is None:
            continue
        if tuple(g.shape) != tuple(w.shape):
            raise Violation("wrong-gradient", f"{where[0]} {nm}: shape {tuple(g.shape)} != {tuple(w.shape)}")
        if not bool(torch.isfinite(g).all()):
            raise Violation("wrong-gradient", f"{where[0]} {nm}: not finite")
        # cotangents are normalised, so 1e-4 is four decades below an ordinary gradient
        sc = (w * p).abs().max().item() + 1e-2 * S + 1e-4
        e = ((g - w) * p).abs().max().item() / sc
        if p.abs().max() == 0:
            e = (g - w).abs().max().item() / (w.abs().max().item() + 1e-9)
        ctx.max_err = max(ctx.max_err, e / tol)
        if not e <= tol:
            raise Violation("wrong-gradient", f"{where[0]} {nm}: relative error {e:.2e} > {tol:.0e}")


def execute(c, ctx):
    P = Problem(c)
    res = []  # results with their forward snapshots
    dirty = []  # per result: set of disturbances since the forward pass
    used = []  # graph already freed?
    ctx.nontrivial = False
    frozen = set()

    def disturb(what):
        for d in dirty:
            d.add(what)

    for ev in c["events"]:
        k = ev[0]
        if k == "fwd":
            sol, b = c["sols"][ev[1]], ev[2]
            while P.flipped:
                x = P.flipped.pop()
                x.copy_(1 - x)
            if c["kind"] == "model":
                B = P.bufs[b]
                if not bool((B["times"].diff(dim=0) > 0).all()):
                    continue
            snap = P.snapshot(b)
            with env.solver_signals() as sig:
                y = P.forward(sol, b)
            if sig or not bool(torch.isfinite(y).all()):
                raise Skip("not converged")
            ctx.sim_time += float(P.bufs[b]["times"][-1].max())
            ctx.tensor("y", y)
            snap["y"] = y.detach().clone()
            res.append((y, snap, sol))
            dirty.append(set())
            used.append(False)
        elif k == "update":
            g = torch.Generator().manual_seed(ev[2])
            with torch.no_grad():
                for i, p in enumerate(P.leaves):
                    if ev[1] == 0 or (ev[1] == 1 and i == 0) or (ev[1] == -1 and i == len(P.leaves) - 1):
                        p.mul_(1.0 + 0.02 * (torch.rand(p.shape, generator=g) - 0.5))
            disturb("update")
            ctx.fault("parameter-update")
        elif k == "freeze":
            i = ev[1] % len(P.leaves)
            if len(frozen | {i}) < len(P.leaves):
                P.leaves[i].requires_grad_(False)
                frozen.add(i)
                disturb("freeze")
                ctx.fault("freeze")
        elif k == "unfreeze":
            for i in frozen:
                P.leaves[i].requires_grad_(True)
            if frozen:
                disturb("unfreeze")
                ctx.fault("unfreeze")
            frozen = set()
        elif k == "buffer":
            B = P.bufs[ev[2]]
            if ev[1] == "y0" and P.y0leaf is not None:
                with torch.no_grad():
                    P.y0leaf.mul_(0.9)
            elif ev[1] in B:
                if ev[1] == "control":
                    B["control"].copy_(1 - B["control"])
                    # the buffer now describes other tests: it goes back before the next forward
                    P.flipped.append(B["control"])
                else:
                    B[ev[1]].mul_(1.05)
            else:
                continue
            disturb("buffer-" + ev[1])
            ctx.fault("overwrite-" + ev[1])
        elif k == "result":
            if ev[1] < len(res):
                with torch.no_grad():
                    res[ev[1]][0].detach().mul_(1.5)
                dirty[ev[1]].add("result")
                ctx.fault("overwrite-result")
        elif k == "gc":
            gc.collect()
        elif k == "bwd":
            if ev[1] >= len(res):
                continue
            backward(c, ctx, P, res, dirty, used, ev)
    ctx.probe("runs-" + c["kind"])


def backward(c, ctx, P, res, dirty, used, ev):
    _, j, seed, shape, how, retain = ev[:6]
    # a gradient is linear in its cotangent, which may be tiny or huge
    scale = 2.0 ** (ev[6] if len(ev) > 6 and how != "double" else 0)
    y, snap, sol = res[j]
    adj = sol["adjoint"]
    want_in = [p for p, r in zip(P.leaves, snap["req"]) if r]
    idx = [i for i, r in enumerate(snap["req"]) if r]
    has_y0 = P.y0leaf is not None and P.y0leaf.requires_grad
    if how == "some":
        keep = [n for n in range(len(idx)) if (seed >> n) & 1] or [0]
        want_in = [want_in[n] for n in keep]
        idx = [idx[n] for n in keep]
    inputs = want_in + ([P.y0leaf] if has_y0 and how != "some" else [])
    gy = cotangent(snap["y"], seed, shape)
    gy_in = gy * scale
    dist = sorted(dirty[j])
    where = f"backward of result {j} ({'adjoint' if adj else 'direct'}, {shape}, {how}) after {dist}"
    watch = env.Watch([("cotangent", gy_in)])
    pair = live = None
    try:
        if how == "backward":
            start = 0.25 * scale
            for p in inputs:
                p.grad = torch.full_like(p, start)
            loss = (y * gy_in).sum()
            loss.backward(retain_graph=retain)
            # torch leaves .grad of parameters alone that are frozen by now
            live = [p.requires_grad for p in inputs]
            got = [None if p.grad is None else p.grad - start for p in inputs]
            others = [p for p in P.leaves]
            for p in others + ([P.y0leaf] if P.y0leaf is not None else []):
                p.grad = None
        elif how == "nograd":
            with torch.no_grad():
                got = torch.autograd.grad(y, inputs, gy_in, retain_graph=retain, allow_unused=True)
        elif how == "double":
            got = torch.autograd.grad((y * gy_in).sum(), inputs, create_graph=True, allow_unused=True)
        elif how == "pair" and len(res) > 1:
            pair = (j + 1) % len(res)
            gy2 = cotangent(res[pair][1]["y"], seed + 1, shape)
            got = torch.autograd.grad((y * gy_in).sum() + (res[pair][0] * (gy2 * scale)).sum(), inputs, retain_graph=retain, allow_unused=True)
        else:
            got = torch.autograd.grad(y, inputs, gy_in, retain_graph=retain, allow_unused=True)
    except RuntimeError as e:
        for p in P.leaves + ([P.y0leaf] if P.y0leaf is not None else []):
            p.grad = None
        clean = not [d for d in dist if not d.startswith("buffer")] and not used[j]
        if pair is not None:
            clean = clean and not dirty[pair] and not used[pair]
        if "buffer-y0" in dist:
            clean = False
        if not any(p.requires_grad for p in inputs):
            clean = False
        if clean and all(p.requires_grad for p in inputs):
            raise Violation("clean-raises", f"{where}: {str(e)[:200]}")
        ctx.reach((c["kind"], adj, tuple(dist), "raised"))
        ctx.probe("backward-raised")
        ctx.event("raised")
        if not retain and how != "double":
            used[j] = True
            if pair is not None:
                used[pair] = True
        return
    watch.check("cotangent-modified", where)
    if how == "double" and adj and not dist:
        # the derivative of the gradient must not be wrong: it has to be refused
        s = sum((g**2).sum() for g in got if g is not None)
        if s.requires_grad:
            ok = False
            try:
                torch.autograd.grad(s, inputs, allow_unused=True, retain_graph=True)
            except RuntimeError:
                ok = True
            if not ok:
                raise Violation("second-derivative", f"{where}: second derivative through the adjoint method was not refused")
        ctx.probe("second-derivative-refused")
    if not retain and how != "double":
        used[j] = True
        if pair is not None:
            used[pair] = True
    gp, g0, err = reference(c, snap, snap["y"], gy, sol["kw"]["method"])
    _, ttol = tolerances(c, adj)
    if not err <= ttol:
        raise Violation("wrong-trajectory", f"{where}: trajectory is off by {err:.1e} > {ttol:.0e}")
    want = [gp[i] for i in idx]
    pv = [snap["params"][i] for i in idx]
    names = [P.names[i] for i in idx]
    if has_y0 and how != "some":
        want = want + [g0]
        pv = pv + [snap["y0"]]
        names = names + ["y0"]
    adj2 = adj
    if pair is not None:
        _, s2, sol2 = res[pair]
        gp2, g02, err2 = reference(c, s2, s2["y"], gy2, sol2["kw"]["method"])
        w2 = [gp2[i] if s2["req"][i] else torch.zeros_like(gp2[i]) for i in idx]
        if has_y0:
            w2 = w2 + [g02]
        want = [a + b for a, b in zip(want, w2)]
        adj2 = adj and sol2["adjoint"]
    got = [torch.zeros_like(w) if g is None else g.detach() / scale for g, w in zip(got, want)]
    if live is not None:
        got, want, pv, names = ([v for v, l in zip(x, live) if l] for x in (got, want, pv, names))
    if not got:
        return
    compare(c, ctx, got, want, pv, adj2, (where, names))
    for g in got:
        ctx.tensor("g", g)
    ctx.nontrivial = True
    ctx.reach((c["kind"], adj, tuple(dist), "compared", how))
    ctx.probe("gradients-compared")
    if dist:
        ctx.probe("gradients-compared-after-disturbance")


def shrink(c):
    for evs in shrink_list(c["events"], keep=1):
        yield dict(c, events=evs)
    if c["kind"] == "toy":
        nb = len(c["y0"])
        for b in range(nb):
            if nb > 1:
                yield dict(c, y0=[c["y0"][b]], times=[[[r[b]] for r in t] for t in c["times"]])
        for n in (2, 3, 4, 6):
            if n < len(c["times"][0]):
                yield dict(c, times=[t[:n] for t in c["times"]])
    else:
        w = c["w"]
        if len(w["hist"]) > 1:
            for b in range(len(w["hist"])):
                yield dict(c, w=dict(w, hist=[w["hist"][b]]), hist2=[c["hist2"][b]])
