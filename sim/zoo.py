"""Workload zoo: constitutive models and ODEs described by plain JSON.

Everything here is deterministic: a spec (JSON) fully determines the object.
The specs are drawn by the simulator's seeded generator (``random.Random``).
"""
import math

import torch
from torch import nn


# ---------------------------------------------------------------- parameters
class PBuild:
    """Collects the leaf parameters of a model while it is being built.

    ``mode`` decides what a leaf becomes:
      * "plain"   -> a plain tensor
      * "param"   -> torch.nn.Parameter (found by introspection)
      * "given"   -> next tensor from ``values`` (maker style)
    """

    def __init__(self, mode="plain", values=None):
        self.mode = mode
        self.values = list(values) if values is not None else None
        self.leaves = []
        self.names = []

    def leaf(self, name, v, trainable=True):
        t = torch.tensor(v, dtype=torch.float64)
        if not trainable or self.mode == "plain":
            out = t
        elif self.mode == "param":
            out = nn.Parameter(t)
        else:
            out = self.values[len(self.leaves)]
        if trainable:
            self.leaves.append(out)
            self.names.append(name)
        return out


def rnd(rng, lo, hi, digits=6):
    v = rng.uniform(lo, hi)
    return float(f"{v:.{digits}g}")


def gen_tp(rng, lo, hi, kinds=("const", "poly", "piece", "bounded"), nb=None):
    """A temperature-parameter spec with values inside [lo,hi] for T in [300,900]."""
    k = rng.choice(kinds)
    if k == "const":
        return {"t": "const", "v": rnd(rng, lo, hi)}
    if k == "pertest":
        return {"t": "const", "v": [rnd(rng, lo, hi) for _ in range(nb)]}
    if k == "poly":
        a, b = rnd(rng, lo, hi), rnd(rng, lo, hi)
        s = (b - a) / 600.0
        return {"t": "poly", "c": [float(f"{s:.8g}"), float(f"{a - 300.0 * s:.8g}")]}
    if k == "piece":
        return {
            "t": "piece",
            "x": [200.0, 450.0, 700.0, 1000.0],
            "v": [rnd(rng, lo, hi) for _ in range(4)],
        }
    if k == "bounded":
        return {"t": "bounded", "v": rnd(rng, 0.1, 0.9), "l": lo, "u": hi}
    if k == "law":
        # the physical temperature laws, with values around the middle of the range at 600 K
        mid = rnd(rng, lo + 0.3 * (hi - lo), lo + 0.7 * (hi - lo))
        law = rng.choice(["arr", "inv", "shear", "shearexp", "mts"] + (["km"] if 2 <= lo and hi <= 8 else []) + (["kmv"] if 100 <= lo and hi <= 500 else []))
        if lo <= 0:
            law = "arr"
        return {"t": "law", "law": law, "mid": mid, "q": rnd(rng, 20, 150), "k": rnd(rng, 3.3, 4.3)}
    raise AssertionError(k)


# shear modulus, Burgers vector, Boltzmann constant, reference rate of the temperature laws
MU, BV, KB, EPS0 = [-20.0, 70000.0], 2.5e-7, 1.38e-20, 10.0


def make_law(spec, pb, name):
    import math

    from pyoptmat import temperature

    law, mid, q = spec["law"], spec["mid"], spec["q"]
    mu600 = MU[0] * 600.0 + MU[1]
    mu = temperature.PolynomialScaling(torch.tensor(MU))
    b, k = torch.tensor(BV), torch.tensor(KB)
    if law == "arr":
        return temperature.ArrheniusScaling(pb.leaf(name + "_A", mid * math.exp(q / 600.0)), pb.leaf(name + "_Q", q))
    if law == "inv":
        # nearly saturated: A (1 - exp(-Q/T))
        Q = 1200.0 + 4 * q
        return temperature.InverseArrheniusScaling(pb.leaf(name + "_A", mid / (1 - math.exp(-Q / 600.0))), pb.leaf(name + "_Q", Q))
    if law == "shear":
        return temperature.ShearModulusScaling(pb.leaf(name + "_A", mid / mu600), mu)
    if law == "shearexp":
        return temperature.ShearModulusScalingExp(pb.leaf(name + "_A", math.log(mid / mu600)), mu)
    if law == "mts":
        x = (1 - (KB * 600.0 / (mu600 * BV**3 * 0.7)) ** (1 / 1.5)) ** (1 / 0.8)
        return temperature.MTSScaling(pb.leaf(name + "_t", mid / x), pb.leaf(name + "_g", 0.7), torch.tensor(1.5), torch.tensor(0.8), k, b, mu)
    A = -mu600 * BV**3 / (KB * 600.0 * spec["k"])
    if law == "km":
        return temperature.KMRateSensitivityScaling(pb.leaf(name + "_A", A), mu, b, k)
    B = math.log(mid / (mu600 * EPS0 ** (-1.0 / spec["k"])))
    return temperature.KMViscosityScaling(pb.leaf(name + "_A", A), pb.leaf(name + "_B", B), mu, torch.tensor(EPS0), b, k)


def make_tp(spec, pb, name):
    from pyoptmat import temperature, optimize

    t = spec["t"]
    tr = spec.get("train", True)
    if t == "law":
        return make_law(spec, pb, name)
    if t == "const":
        return temperature.ConstantParameter(pb.leaf(name, spec["v"], tr))
    if t == "bounded":
        fn = optimize.bounded_scale_function(
            (torch.tensor(float(spec["l"])), torch.tensor(float(spec["u"])))
        )
        return temperature.ConstantParameter(
            pb.leaf(name, spec["v"], tr), p_scale=fn
        )
    if t == "poly":
        return temperature.PolynomialScaling(pb.leaf(name, spec["c"], tr))
    if t == "piece":
        return temperature.PiecewiseScaling(
            torch.tensor(spec["x"], dtype=torch.float64), pb.leaf(name, spec["v"], tr)
        )
    raise AssertionError(t)


# -------------------------------------------------------------------- models
ISO = ("voce", "theta0", "theta0rec")
KIN = ("none", "fa", "fanorec", "chaboche", "chabocherec", "super")


def gen_iso(rng, kind=None, tpk=("const",)):
    kind = kind or rng.choice(ISO)
    if kind == "voce":
        return {"k": "voce", "R": gen_tp(rng, 20, 120, tpk), "d": gen_tp(rng, 2, 20, tpk)}
    if kind == "theta0":
        return {
            "k": "theta0",
            "tau": gen_tp(rng, 40, 120, tpk),
            "theta": gen_tp(rng, 300, 1500, tpk),
        }
    return {
        "k": "theta0rec",
        "tau": gen_tp(rng, 40, 120, tpk),
        "theta": gen_tp(rng, 300, 1500, tpk),
        "R0": gen_tp(rng, 5, 15, tpk),
        "r1": gen_tp(rng, 1e-4, 1e-3, tpk),
        "r2": gen_tp(rng, 1.1, 2.0, tpk),
    }


def gen_kin(rng, kind=None, tpk=("const",)):
    kind = kind or rng.choice(KIN)
    if kind == "none":
        return {"k": "none"}
    if kind in ("fa", "fanorec"):
        return {"k": kind, "C": gen_tp(rng, 500, 4000, tpk), "g": gen_tp(rng, 20, 100, tpk)}
    if kind in ("chaboche", "chabocherec"):
        n = rng.choice([1, 2, 3])
        out = {
            "k": kind,
            "C": [rnd(rng, 500, 4000) for _ in range(n)],
            "g": [rnd(rng, 20, 100) for _ in range(n)],
        }
        if kind == "chabocherec":
            out["b"] = [rnd(rng, 1e-4, 1e-3) for _ in range(n)]
            out["r"] = [rnd(rng, 1.2, 2.0) for _ in range(n)]
        return out
    return {"k": "super", "m": [gen_kin(rng, "fa", tpk), gen_kin(rng, "fanorec", tpk)]}


def gen_flow(rng, kind=None, tpk=("const",), iso=None, kin=None):
    kind = kind or rng.choice(["perfect", "isokin", "isokin", "isokin", "superflow", "softkm", "km", "ri"])
    if kind == "perfect":
        return {"k": "perfect", "n": gen_tp(rng, 3, 6, tpk), "eta": gen_tp(rng, 150, 350, tpk)}
    if kind == "isokin":
        return {
            "k": "isokin",
            "n": gen_tp(rng, 3, 6, tpk),
            "eta": gen_tp(rng, 120, 300, tpk),
            "s0": gen_tp(rng, 5, 40, tpk),
            "iso": gen_iso(rng, iso, tpk),
            "kin": gen_kin(rng, kin, tpk),
        }
    if kind == "superflow":
        return {
            "k": "superflow",
            "m": [gen_flow(rng, "perfect", tpk), gen_flow(rng, "isokin", tpk)],
        }
    if kind in ("km", "softkm"):
        i, k = rng.choice(ISO), rng.choice(["none", "fa"])
        return {
            "k": kind,
            "m": [gen_flow(rng, "isokin", tpk, i, k), gen_flow(rng, "isokin", tpk, i, k)],
            "g0": rnd(rng, 0.4, 0.7),
            "sf": rnd(rng, 5.0, 20.0),
        }
    if kind == "ri":
        return {
            "k": "ri",
            "base": gen_flow(rng, "isokin", tpk),
            "lmbda": rng.choice([0.0, 0.3, 0.6]),
            "eps_ref": rng.choice([1e-3, 1e-2]),
        }
    raise AssertionError(kind)


DMG = ("none", "const", "hl", "lm")


def gen_model(rng, flow=None, dmg=None, tpk=("const",)):
    dmg = dmg if dmg is not None else rng.choice(["plain", "plain"] + list(DMG))
    out = {"E": gen_tp(rng, 80000, 160000, tpk), "flow": gen_flow(rng, flow, tpk)}
    if dmg == "plain":
        out["dmg"] = None
    elif dmg == "none":
        out["dmg"] = {"k": "none"}
    elif dmg == "const":
        out["dmg"] = {"k": "const", "R": gen_tp(rng, 1e-5, 5e-4, ("const",))}
    elif dmg == "hl":
        out["dmg"] = {
            "k": "hl",
            "A": gen_tp(rng, 4000, 8000, ("const",)),
            "xi": gen_tp(rng, 2.5, 4.0, ("const",)),
            "phi": gen_tp(rng, 0.5, 2.0, ("const",)),
        }
    else:
        # 10^(C - B/T) (|s|(1-d))^(-A/T), A<0 gives growth with stress; -A/T > 1 keeps it differentiable at zero stress
        out["dmg"] = {
            "k": "lm",
            "C": gen_tp(rng, -12.8, -11.8, ("const",)),
            "A": gen_tp(rng, -1300, -950, ("const",)),
            "B": gen_tp(rng, 0.0, 100.0, ("const",)),
        }
    return out


def make_iso(s, pb, nm):
    from pyoptmat import hardening

    k = s["k"]
    if k == "voce":
        return hardening.VoceIsotropicHardeningModel(
            make_tp(s["R"], pb, nm + "R"), make_tp(s["d"], pb, nm + "d")
        )
    if k == "theta0":
        return hardening.Theta0VoceIsotropicHardeningModel(
            make_tp(s["tau"], pb, nm + "tau"), make_tp(s["theta"], pb, nm + "theta")
        )
    return hardening.Theta0RecoveryVoceIsotropicHardeningModel(
        make_tp(s["tau"], pb, nm + "tau"),
        make_tp(s["theta"], pb, nm + "theta"),
        make_tp(s["R0"], pb, nm + "R0"),
        make_tp(s["r1"], pb, nm + "r1"),
        make_tp(s["r2"], pb, nm + "r2"),
    )


def make_kin(s, pb, nm):
    from pyoptmat import hardening, temperature

    k = s["k"]
    if k == "none":
        return hardening.NoKinematicHardeningModel()
    if k == "fa":
        return hardening.FAKinematicHardeningModel(
            make_tp(s["C"], pb, nm + "C"), make_tp(s["g"], pb, nm + "g")
        )
    if k == "fanorec":
        return hardening.FAKinematicHardeningModelNoRecovery(
            make_tp(s["C"], pb, nm + "C"), make_tp(s["g"], pb, nm + "g")
        )
    if k in ("chaboche", "chabocherec"):
        cp = temperature.ConstantParameter
        C, g = cp(pb.leaf(nm + "C", s["C"])), cp(pb.leaf(nm + "g", s["g"]))
        if k == "chaboche":
            return hardening.ChabocheHardeningModel(C, g)
        return hardening.ChabocheHardeningModelRecovery(
            C, g, cp(pb.leaf(nm + "b", s["b"])), cp(pb.leaf(nm + "r", s["r"]))
        )
    return hardening.SuperimposedKinematicHardening(
        [make_kin(m, pb, nm + f"{i}_") for i, m in enumerate(s["m"])]
    )


def make_flow(s, pb, nm="f"):
    from pyoptmat import flowrules, temperature

    k = s["k"]
    if k == "perfect":
        return flowrules.PerfectViscoplasticity(
            make_tp(s["n"], pb, nm + "n"), make_tp(s["eta"], pb, nm + "eta")
        )
    if k == "isokin":
        return flowrules.IsoKinViscoplasticity(
            make_tp(s["n"], pb, nm + "n"),
            make_tp(s["eta"], pb, nm + "eta"),
            make_tp(s["s0"], pb, nm + "s0"),
            make_iso(s["iso"], pb, nm + "iso_"),
            make_kin(s["kin"], pb, nm + "kin_"),
        )
    if k == "superflow":
        return flowrules.SuperimposedFlowRule(
            [make_flow(m, pb, nm + f"{i}_") for i, m in enumerate(s["m"])]
        )
    if k in ("km", "softkm"):
        m1 = make_flow(s["m"][0], pb, nm + "a_")
        m2 = make_flow(s["m"][1], pb, nm + "b_")
        mu = temperature.ConstantParameter(torch.tensor(60000.0))
        args = (
            m1,
            m2,
            pb.leaf(nm + "g0", s["g0"]) if k == "softkm" else torch.tensor(s["g0"]),
            mu,
            torch.tensor(2.5e-7),
            torch.tensor(1e7),
            torch.tensor(1.38064e-20),
        )
        if k == "km":
            return flowrules.KocksMeckingRegimeFlowRule(*args)
        return flowrules.SoftKocksMeckingRegimeFlowRule(*args, torch.tensor(s["sf"]))
    if k == "ri":
        return flowrules.RateIndependentFlowRuleWrapper(
            make_flow(s["base"], pb, nm + "r_"), s["lmbda"], s["eps_ref"]
        )
    raise AssertionError(k)


def make_model(s, pb=None):
    """Build the (unintegrated) constitutive model; returns (model, PBuild)."""
    from pyoptmat import models, damage

    pb = pb or PBuild("plain")
    E = make_tp(s["E"], pb, "E")
    fl = make_flow(s["flow"], pb, "f_")
    d = s["dmg"]
    if d is None:
        return models.InelasticModel(E, fl), pb
    if d["k"] == "none":
        dm = damage.NoDamage()
    elif d["k"] == "const":
        dm = damage.ConstantDamage(make_tp(d["R"], pb, "d_R"))
    elif d["k"] == "hl":
        dm = damage.HayhurstLeckie(
            make_tp(d["A"], pb, "d_A"), make_tp(d["xi"], pb, "d_xi"), make_tp(d["phi"], pb, "d_phi")
        )
    else:
        dm = damage.LarsonMillerDamage(
            make_tp(d["C"], pb, "d_C"), make_tp(d["A"], pb, "d_A"), make_tp(d["B"], pb, "d_B")
        )
    return models.DamagedInelasticModel(E, fl, dmodel=dm), pb


def flow_kind(s):
    return s["k"]


# ------------------------------------------------------------------- loading
def gen_history(rng, control, ntime=None, kind=None):
    """One test: dict with times, temps, data (strain or stress), all lists."""
    n = ntime or rng.randint(6, 14)
    kind = kind or rng.choice(["mono", "mono", "hold", "cyclic"])
    T0 = rnd(rng, 320, 850)
    T1 = T0 if rng.random() < 0.6 else min(880.0, max(310.0, T0 + rnd(rng, -60, 60)))
    amp = rnd(rng, 0.004, 0.02) if control == 0 else rnd(rng, 40, 160)
    if control == 0:
        rate = 10.0 ** rng.uniform(-4, -2)
    else:
        rate = 10.0 ** rng.uniform(-1, 1.5)
    total = 0.0
    times, data = [0.0], [0.0]
    segs = []
    if kind == "mono":
        segs = [(amp, n - 1)]
    elif kind == "hold":
        k = max(1, (n - 1) // 2)
        segs = [(amp, k), (None, n - 1 - k)]
    else:
        k = max(1, (n - 1) // 3)
        R = rnd(rng, -1.0, 0.5)
        segs = [(amp, k), (R * amp, k), (amp, n - 1 - 2 * k)]
    for target, m in segs:
        if m <= 0:
            continue
        if target is None:
            dur = rnd(rng, 0.5, 3.0) * (amp / rate)
            for i in range(m):
                times.append(total + dur * (i + 1) / m)
                data.append(data[-1])
            total += dur
        else:
            start = data[-1]
            dur = max(abs(target - start) / rate, 1e-3)
            jit = sorted(rng.uniform(0.05, 1.0) for _ in range(m - 1)) + [1.0]
            fr = [(0.5 * (i + 1) / m + 0.5 * j) for i, j in enumerate(jit)]
            fr[-1] = 1.0
            for f in fr:
                times.append(total + dur * f)
                data.append(start + (target - start) * f)
            total += dur
    times = [float(f"{t:.10g}") for t in times]
    data = [float(f"{d:.10g}") for d in data]
    temps = [
        float(f"{T0 + (T1 - T0) * i / (len(times) - 1):.10g}") for i in range(len(times))
    ]
    return {"times": times, "temps": temps, "data": data, "control": control, "kind": kind}


def coincide(rng, hs):
    """Give the tests of one batch something in common, which shortcuts in the code could rely on."""
    how = rng.choice(["end", "end", "grid", "temp", "profile", "peak", "twin", "late", "late-one", "almost", "repeat", "near"])
    a = hs[0]
    if how in ("end", "grid"):
        for h in hs[1:]:
            h["times"] = list(a["times"]) if how == "grid" else [float(f"{x / h['times'][-1] * a['times'][-1]:.10g}") for x in h["times"]]
            h["times"][-1] = a["times"][-1]
    elif how == "temp":
        for h in hs:
            h["temps"] = [a["temps"][0]] * len(h["temps"])
    elif how == "profile":
        for h in hs[1:]:
            h["temps"] = list(a["temps"])
    elif how == "peak":
        for h in hs[1:]:
            f = max(map(abs, a["data"])) / max(map(abs, h["data"]))
            if h["control"] == a["control"]:
                h["data"] = [x * f for x in h["data"]]
    elif how == "almost":
        # clocks that differ by a little
        for h in hs[1:]:
            f = 1 + rng.choice([-1, 1]) * 10 ** rng.uniform(-6, -2.5)
            h["times"] = [float(f"{x * f:.15g}") for x in a["times"]]
    elif how == "near":
        # nearly one temperature
        for h in hs:
            d = rng.choice([0.0, 0.03, 0.4, 0.9, 3.0])
            h["temps"] = [x + d for x in a["temps"]]
    elif how == "repeat":
        # a record stored twice (not the first one)
        h = rng.choice(hs)
        k = rng.randrange(2, len(h["times"]))
        for q in ("times", "temps", "data"):
            h[q] = list(h[q])
            h[q][k] = h[q][k - 1]
    elif how == "twin" and len(hs) > 1:
        hs[rng.randrange(1, len(hs))].update({k: list(v) if isinstance(v, list) else v for k, v in a.items()})
    else:
        for h in hs if how == "late" else hs[-1:]:
            t0 = 5.0 * h["times"][-1]
            h["times"] = [float(f"{t + t0:.12g}") for t in h["times"]]
    return how


def stack_history(hs):
    f = lambda k: torch.tensor([h[k] for h in hs], dtype=torch.float64).t().contiguous()
    return (
        f("times"),
        f("temps"),
        f("data"),
        torch.tensor([h["control"] for h in hs]),
    )


# ---------------------------------------------------------------- toy ODEs
class ToyODE(nn.Module):
    """y' = f(t,y;theta) with an analytic Jacobian; shared by several properties.

    kinds: lin (coupled linear, batched decay), logistic (nonlinear), duff
    (forced, 2 state), relaxn (power-law decay), net (neural via NeuralODE)
    """

    def __init__(self, spec, params=None):
        super().__init__()
        self.kind = spec["kind"]
        self.size = spec["size"]
        mk = lambda v: nn.Parameter(torch.tensor(v, dtype=torch.float64))
        if params is None:
            self.a = mk(spec["a"])
            self.b = mk(spec["b"])
        else:
            self.a, self.b = params

    def forward(self, t, y):
        n = self.size
        a, b = self.a, self.b
        tt = t.unsqueeze(-1)
        if self.kind == "lin":
            # y_i' = -a_i y_i + b_i y_{i-1} + sin t
            ym = torch.cat([torch.zeros_like(y[..., :1]), y[..., :-1]], dim=-1)
            f = -a * y + b * ym + torch.sin(tt)
            J = torch.diag_embed((-a).expand(y.shape))
            if n > 1:
                off = torch.diag_embed(b[..., 1:].expand(y[..., 1:].shape), offset=-1)
                J = J + off
            return f, J
        if self.kind == "logistic":
            f = a * y * (1.0 - y) - b * y + 0.1 * torch.cos(tt)
            J = torch.diag_embed(a * (1.0 - 2.0 * y) - b)
            return f, J
        if self.kind == "cubic":
            m = y.mean(dim=-1, keepdim=True)
            f = -a * y**3 + b * m + torch.sin(2.0 * tt)
            J = torch.diag_embed(-3.0 * a * y**2) + (
                b.unsqueeze(-1) * torch.ones(n, n) / n
            ).expand(y.shape + (n,))
            return f, J
        raise AssertionError(self.kind)


def gen_toy(rng, size=None):
    size = size or rng.choice([1, 2, 3, 4])
    kind = rng.choice(["lin", "logistic", "cubic"])
    return {
        "kind": kind,
        "size": size,
        "a": [rnd(rng, 0.5, 2.0) for _ in range(size)],
        "b": [rnd(rng, 0.1, 0.8) for _ in range(size)],
    }


def gen_net(rng):
    n, m, h = rng.choice([1, 2]), rng.choice([1, 2]), rng.choice([2, 3])
    g = lambda r, c: [[rnd(rng, -0.8, 0.8) for _ in range(c)] for _ in range(r)]
    return {
        "kind": "net",
        "size": n,
        "nf": m,
        "w1": g(h, n + m),
        "w2": g(n, h),
        "b1": [rnd(rng, -0.3, 0.3) for _ in range(h)],
        "b2": [rnd(rng, -0.3, 0.3) for _ in range(n)],
    }


def make_ode(spec):
    if spec["kind"] != "net":
        return ToyODE(spec)
    from pyoptmat import neuralode

    net = nn.Sequential(
        nn.Linear(spec["size"] + spec["nf"], len(spec["w1"])),
        nn.Tanh(),
        nn.Linear(len(spec["w1"]), spec["size"]),
    )
    with torch.no_grad():
        net[0].weight.copy_(torch.tensor(spec["w1"]))
        net[0].bias.copy_(torch.tensor(spec["b1"]))
        net[2].weight.copy_(torch.tensor(spec["w2"]))
        net[2].bias.copy_(torch.tensor(spec["b2"]))
    k = torch.arange(1, spec["nf"] + 1, dtype=torch.float64)
    return neuralode.NeuralODE(net, lambda t: torch.sin(t.unsqueeze(-1) * k))


def gen_times(rng, ntime, nbatch, tmax=2.0):
    cols = []
    for _ in range(nbatch):
        w = [rng.uniform(0.3, 1.0) for _ in range(ntime - 1)]
        s, c = sum(w), 0.0
        col = [0.0]
        scale = rng.uniform(0.5, 1.0) * tmax
        for x in w:
            c += x
            col.append(float(f"{scale * c / s:.9g}"))
        cols.append(col)
    return [[cols[b][i] for b in range(nbatch)] for i in range(ntime)]


def gen_solver(rng, ntime, adjoint=None, method=None):
    """integration configuration (kwargs for odeint / odeint_adjoint)."""
    ds = rng.choice(["thomas", "pcr", "hybrid"])
    out = {
        "adjoint": rng.random() < 0.6 if adjoint is None else adjoint,
        "kw": {
            "method": method or rng.choice(["backward-euler"] * 4 + ["forward-euler"]),
            "block_size": rng.choice([1, 2, 3, 4, 5, 7, 8, 16, ntime - 1, ntime + 3]),
            "direct_solve_method": ds,
            "linear_solve_method": rng.choice(["direct", "direct", "dense"]),
            "guess_type": rng.choice(["zero", "previous"]),
            "rtol": 1e-10,
            "atol": 1e-9,
            "miter": 60,
        },
    }
    if ds == "hybrid":
        out["kw"]["direct_solve_min_size"] = rng.choice([0, 1, 2, 3, 5, 8])
    out["kw"]["block_size"] = max(1, out["kw"]["block_size"])
    return out


# ----------------------------------------------------------- complete workloads
def gen_workload(rng, nb=None, n=None, ctl=None, adjoint=None, flow=None, dmg=None, tpk=None, method=None, light=False):
    """A constitutive model, a batch of tests and solver settings that converge when clean.

    ``ctl``: 0 strain control, 1 stress control, 2 mixed.
    """
    ctl = rng.choice([0, 0, 1, 2]) if ctl is None else ctl
    if flow is None:
        if ctl == 0:
            flow = rng.choice(["perfect"] + ["isokin"] * 5 + ["superflow", "softkm", "km"] + ([] if light else ["ri"]))
        else:
            flow = rng.choice(["perfect"] + ["isokin"] * 5 + ["superflow"] + ([] if light else ["softkm"]))
    if dmg is None:
        ok = ["plain", "plain", "none", "const"]
        if flow in ("perfect", "isokin", "superflow"):
            ok += ["hl", "lm"]
        dmg = rng.choice(ok)
    tpk = tpk or ("const", "const", "poly", "piece", "bounded", "law")
    spec = gen_model(rng, flow=flow, dmg=dmg, tpk=tpk)
    nb = nb or rng.choice([1, 2, 3])
    n = n or rng.randint(5, 10)
    hs = [gen_history(rng, ctl if ctl < 2 else rng.choice([0, 1]), n) for _ in range(nb)]
    if nb > 1 and rng.random() < 0.35:
        coincide(rng, hs)
    if method is None:
        method = "backward-euler"
    sol = gen_solver(rng, n, adjoint=adjoint, method=method)
    sol["kw"].update(rtol=1e-10, atol=1e-10 if ctl == 0 else 1e-11, miter=60)
    if not sol["adjoint"] and sol["kw"]["linear_solve_method"] == "direct":
        # parallel cyclic reduction under plain AD is refused by torch (loudly)
        sol["kw"]["direct_solve_method"] = "thomas"
        sol["kw"].pop("direct_solve_min_size", None)
    return {"model": spec, "hist": hs, "ctl": ctl, "solver": sol}


def integrate_workload(w, m, use_adjoint=None, hist=None, **over):
    """Integrated result of a workload with model ``m``."""
    from pyoptmat import models

    t, T, d, con = stack_history(hist if hist is not None else w["hist"])
    kw = dict(w["solver"]["kw"], **over)
    adj = w["solver"]["adjoint"] if use_adjoint is None else use_adjoint
    return models.ModelIntegrator(m, use_adjoint=adj, **kw).solve_both(t, T, d, con)


# ------------------------------------------------------- experiments, calibration
TYPES = {
    "tensile": 0,
    "relaxation": 0,
    "strain_cyclic": 0,
    "creep": 1,
    "stress_cyclic": 1,
    "abstract_tensile": 0,
    "direct_data": None,
}
TYPE_CODE = {k: i for i, k in enumerate(TYPES)}
HIST_KIND = {"relaxation": "hold", "creep": "hold", "strain_cyclic": "cyclic", "stress_cyclic": "cyclic"}


def gen_test(rng, n, typ=None, ctl=None):
    """One experiment: loading history plus type and cycle layout."""
    ok = [t for t, c in TYPES.items() if ctl is None or c is None or c == ctl]
    typ = typ or rng.choice(ok)
    c = TYPES[typ]
    if c is None:
        c = rng.choice([0, 1]) if ctl is None else ctl
    h = gen_history(rng, c, n, kind=HIST_KIND.get(typ, rng.choice(["mono", "mono", "cyclic"]) if typ == "direct_data" else "mono"))
    h["type"] = typ
    if typ in ("relaxation", "creep"):
        k = max(1, (n - 1) // 2) + 1
        h["cycles"] = [0] * k + [1] * (n - k)
    elif typ in ("strain_cyclic", "stress_cyclic"):
        cuts = sorted(rng.sample(range(1, n), rng.randint(0, min(3, n - 1))))
        h["cycles"] = [sum(i >= q for q in cuts) for i in range(n)]
    elif typ == "abstract_tensile":
        a = rng.randint(1, n - 2)
        b = rng.randint(a + 1, n - 1)
        h["cycles"] = [0] * a + [1] * (b - a) + [2] * (n - b)
    else:
        h["cycles"] = [0] * n
    return h


def stack_tests(hs):
    """data (3,ntime,nexp), cycles, types, control"""
    t, T, d, con = stack_history(hs)
    cyc = torch.tensor([h["cycles"] for h in hs]).t().contiguous()
    typ = torch.tensor([TYPE_CODE[h["type"]] for h in hs])
    return torch.stack([t, T, d]), cyc, typ, con


def gen_calibration(rng, nb=None, n=None, ctl=None, hier=False, flow=None, adjoint=None, types=None):
    """A calibration problem: model description, tests, solver settings."""
    flow = flow or rng.choice(["perfect", "perfect", "isokin", "isokin"])
    if hier:
        spec = {"E": gen_tp(rng, 80000, 160000, ("const",)), "dmg": None}
        if flow == "perfect":
            spec["flow"] = gen_flow(rng, "perfect", ("const",))
        else:
            spec["flow"] = gen_flow(rng, "isokin", ("const",), "voce", rng.choice(["none", "fa"]))
    else:
        dmg = rng.choice(["plain", "plain", "plain", "none", "const"])
        spec = gen_model(rng, flow=flow, dmg=dmg, tpk=("const", "const", "poly", "bounded"))
    n = n or rng.randint(5, 8)
    nb = nb or rng.choice([1, 2, 3, 4])
    tests = [gen_test(rng, n, typ=types[b] if types else None, ctl=ctl) for b in range(nb)]
    if nb > 1 and rng.random() < 0.35:
        coincide(rng, tests)
    sol = gen_solver(rng, n, adjoint=adjoint, method="backward-euler")
    strain = all(h["control"] == 0 for h in tests)
    sol["kw"].update(rtol=1e-10, atol=1e-10 if strain else 1e-11, miter=60)
    if not sol["adjoint"] and sol["kw"]["linear_solve_method"] == "direct":
        sol["kw"]["direct_solve_method"] = "thomas"
        sol["kw"].pop("direct_solve_min_size", None)
    return {"model": spec, "tests": tests, "solver": sol}


def make_maker(cal):
    """(maker, names, initial values) in the form DeterministicModel & co expect."""
    from pyoptmat import models

    pb = PBuild("plain")
    make_model(cal["model"], pb)
    names = [nm.replace(".", "_") for nm in pb.names]
    ics = [p.clone() for p in pb.leaves]
    sol = cal["solver"]

    def maker(*params, extra_params=None, **kwargs):
        m, _ = make_model(cal["model"], PBuild("given", params))
        kw = dict(sol["kw"], **kwargs)
        if extra_params is not None and sol["adjoint"]:
            kw["extra_params"] = extra_params
        return models.ModelIntegrator(m, use_adjoint=sol["adjoint"], **kw)

    return maker, names, ics
