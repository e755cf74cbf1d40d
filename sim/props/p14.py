"""P14: randomly generated tests are valid, in range and reproducible."""

import numpy as np

from sim.core import Violation, shrink_list

RUNS = {"quick": 6000, "thorough": 100000}
RULE = "one run = several clients generating and sampling tests from one or several random streams, with extreme draws injected; distinct = distinct event-log digest (bits of every description and history), nontrivial = at least one description was sampled"
TIME = "test time of the sampled histories"
MEASURE = "distinct (client kind, injected draw, shape of the cycle, number of cycles, steps) tuples"
REAL = ["pyoptmat.experiments.generate_random_tension", "sample_tension", "generate_random_cycle", "sample_cycle_normalized_times"]
STUBS = ["draws of numpy's global stream (recorded, and replaced by the ends of their range at chosen draws)", "order in which clients use the stream"]
ASSUMPTIONS = ["numpy.random.uniform(a, b) may return any value of [a, b], including both ends", "times and strains may be rounded to 1e-9 of their size"]
CHUNK = 50


def r(rng, a, b):
    return float(f"{rng.uniform(a, b):.6g}")


def gen_client(rng):
    if rng.random() < 0.35:
        lo = 10 ** rng.uniform(-7, -3)
        cl = {"k": "tension", "default": rng.random() < 0.2, "rate": [lo, lo * 10 ** rng.uniform(0, 4)], "emax": r(rng, 0.001, 0.5), "nsteps": rng.choice([2, 3, 10, 50, 137])}
        if rng.random() < 0.3:
            cl["rate"] = cl["rate"][::-1]
        return cl
    a, b = sorted([10 ** rng.uniform(-6, -1), 10 ** rng.uniform(-6, -1)])
    R = rng.choice([[-1, 1], [-1, 1], [-1, -1], [0, 0], [1, 1], [-1, 0], [0, 1], [r(rng, -1, 0), r(rng, 0, 1)], [-2.5, 1]])
    return {
        "k": "cycle",
        "default": rng.random() < 0.2,
        "emax": rng.choice([[0, 0.02], [0.001, 0.02], [0.01, 0.01], [r(rng, 0, 0.01), r(rng, 0.01, 0.03)]]),
        "R": R,
        "rate": [b, a] if rng.random() < 0.5 else [a, b],
        "th": rng.choice([[0, 3600.0], [0, 0], [10, 10], [r(rng, 0, 10), r(rng, 10, 1e5)]]),
        "ch": rng.choice([[0, 600], [0, 0], [5, 5], [r(rng, 0, 10), r(rng, 10, 1e4)]]),
        "N": rng.choice([1, 1, 2, 3, 7, 30, 200]),
        "nload": rng.choice([1, 2, 3, 10, 10, 17]),
        "nhold": rng.choice([1, 2, 3, 10, 10, 17]),
    }


def generate(rng, tier, i):
    kind = rng.choice(["clients"] * 6 + ["independent"])
    if kind == "independent":
        return {"kind": kind, "client": dict(gen_client(rng), default=False), "n": 250, "nseed": rng.randrange(10**6)}
    c = {"kind": kind, "clients": [gen_client(rng) for _ in range(rng.randint(1, 3))], "nseed": rng.randrange(10**6)}
    # events: which client runs, which of its draws are pushed to an end, what happens before
    c["events"] = []
    for _ in range(rng.randint(1, 6)):
        push = {}
        if rng.random() < 0.6:
            for _ in range(rng.randint(1, 5)):
                push[str(rng.randrange(5))] = rng.choice(["low", "low", "high", "below-high", "above-low"])
        c["events"].append([rng.randrange(len(c["clients"])), push, rng.choice(["none", "none", "scribble", "fail", "draws", "reseed-torch"])])
    c["own_streams"] = rng.random() < 0.5
    return c


class Draws:
    """numpy's global stream under control; uniform() may be told to return an end of its range"""

    NAMES = ["uniform", "random", "rand", "random_sample", "ranf", "sample"]

    def __init__(self, push, ctx):
        self.push, self.ctx, self.n = push, ctx, 0

    def end(self, lo, hi, v):
        how = self.push.get(str(self.n))
        self.n += 1
        if how is None:
            return v
        self.ctx.fault("draw-" + how)
        if how == "low":
            return lo
        if how == "high":
            return hi
        if how == "below-high":
            return lo + (hi - lo) * (1 - 2.0**-53)
        return lo + (hi - lo) * 2.0**-53

    def __enter__(self):
        self.old = {n: getattr(np.random, n) for n in self.NAMES if hasattr(np.random, n)}
        old = self.old

        def wrap(x, lo, hi):
            lo, hi = np.asarray(lo, float), np.asarray(hi, float)
            if np.ndim(x) == 0:
                return float(self.end(float(lo), float(hi), x))
            lo, hi = np.broadcast_to(lo, x.shape), np.broadcast_to(hi, x.shape)
            return np.array([self.end(a, b, v) for a, b, v in zip(lo.flat, hi.flat, x.flat)]).reshape(x.shape)

        np.random.uniform = lambda low=0.0, high=1.0, size=None: wrap(old["uniform"](low, high, size), low, high)
        one = np.nextafter(1.0, 0.0)
        for n in self.NAMES[1:]:
            if n in old:
                setattr(np.random, n, lambda *a, n=n, **k: wrap(old[n](*a, **k), 0.0, one))
        return self

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(np.random, n, f)


def call(cl):
    from pyoptmat import experiments as e

    if cl["k"] == "tension":
        if cl["default"]:
            return e.generate_random_tension(), dict(cl, rate=[1.0e-6, 1.0e-2], emax=0.2)
        given = list(cl["rate"])
        out = e.generate_random_tension(strain_rate=given, max_strain=cl["emax"])
        if given != cl["rate"]:
            raise Violation("ranges-changed", "strain_rate list of the caller changed")
        return out, cl
    if cl["default"]:
        return e.generate_random_cycle(), dict(cl, emax=[0, 0.02], R=[-1, 1], rate=[1e-3, 1e-5], th=[0, 3600.0], ch=[0, 600])
    given = {k: list(cl[k]) for k in ("emax", "R", "rate", "th", "ch")}
    out = e.generate_random_cycle(max_strain=given["emax"], R=given["R"], strain_rate=given["rate"], tension_hold=given["th"], compression_hold=given["ch"])
    if any(given[k] != cl[k] for k in given):
        raise Violation("ranges-changed", "a range list of the caller changed")
    return out, cl


def inside(x, rg, what):
    lo, hi = min(rg), max(rg)
    tol = 1e-12 * max(abs(lo), abs(hi))
    if not (lo - tol <= x <= hi + tol):
        raise Violation("out-of-range", f"{what} {x!r} not in {rg}")


def check_desc(d, cl):
    if cl["k"] == "tension":
        if sorted(d) != ["max_strain", "strain_rate"]:
            raise Violation("description", f"{sorted(d)}")
        if d["max_strain"] != cl["emax"]:
            raise Violation("out-of-range", f"max_strain {d['max_strain']} not {cl['emax']}")
        inside(d["strain_rate"], cl["rate"], "strain_rate")
        return
    if sorted(d) != ["R", "compression_hold", "max_strain", "strain_rate", "tension_hold"]:
        raise Violation("description", f"{sorted(d)}")
    for k, rg in (("max_strain", "emax"), ("R", "R"), ("strain_rate", "rate"), ("tension_hold", "th"), ("compression_hold", "ch")):
        inside(d[k], cl[rg], k)


def check_tension(d, cl, ctx):
    from pyoptmat import experiments as e

    before = dict(d)
    t, s = e.sample_tension(d, nsteps=cl["nsteps"])
    if d != before:
        raise Violation("description-changed", "by sampling")
    n = cl["nsteps"]
    if t.shape != (n,) or s.shape != (n,):
        raise Violation("history-shape", f"{t.shape} {s.shape}")
    finite(t, s)
    if t[0] != 0 or s[0] != 0:
        raise Violation("start", f"{t[0]} {s[0]}")
    dt, ds = np.diff(t), np.diff(s)
    if (dt < 0).any():
        raise Violation("time-decreases", "tension")
    emax, rate = d["max_strain"], d["strain_rate"]
    if s.max() > emax * (1 + 1e-9) or s.min() < -1e-12:
        raise Violation("strain-limit", f"{s.min()} {s.max()}")
    if (ds > rate * dt * (1 + 1e-9) + 1e-12 * emax).any() or (ds < 0).any():
        raise Violation("rate", "tension")
    if abs(s[-1] - emax) > 1e-9 * emax:
        raise Violation("end", f"{s[-1]} {emax}")
    ctx.sim_time += float(t[-1])
    return t, s


def finite(*xs):
    for x in xs:
        if not np.isfinite(x).all():
            raise Violation("not-finite", "history")


def check_cycle(d, cl, ctx):
    from pyoptmat import experiments as e

    N, nl, nh = cl["N"], cl["nload"], cl["nhold"]
    before = dict(d)
    with np.errstate(all="ignore"):
        t, s, cy = e.sample_cycle_normalized_times(d, N, nload=nl, nhold=nh)
    if d != before:
        raise Violation("description-changed", "by sampling")
    if not (t.shape == s.shape == cy.shape) or t.ndim != 1:
        raise Violation("history-shape", f"{t.shape} {s.shape} {cy.shape}")
    emax, emin, rate = d["max_strain"], d["R"] * d["max_strain"], d["strain_rate"]
    seg = [abs(emax) / rate, d["tension_hold"], abs(emax - emin) / rate, d["compression_hold"], abs(emin) / rate]
    P = sum(seg)
    if P == 0.0:
        # nothing moves and nothing is held: only the trivial statements remain
        if (t != 0).any() or (np.diff(cy) < 0).any():
            raise Violation("start", "cycle of no duration")
        ctx.probe("cycle-of-no-duration")
        return t, s, cy
    finite(t, s)
    if t[0] != 0 or s[0] != 0 or cy[0] != 0:
        raise Violation("start", f"{t[0]} {s[0]} {cy[0]}")
    dt, ds = np.diff(t), np.diff(s)
    if (dt < 0).any():
        raise Violation("time-decreases", f"at {int(np.argmin(dt))}")
    if (np.diff(cy) < 0).any() or (np.diff(cy) > 1).any() or cy[-1] != N - 1:
        raise Violation("cycle-numbers", f"{cy[0]}..{cy[-1]} for {N} cycles")
    top, low = max(emax, emin, 0.0), min(emax, emin, 0.0)
    etol = 1e-9 * max(abs(emax), abs(emin)) + rate * 1e-13 * N * P
    if s.max() > top + etol or s.min() < low - etol:
        raise Violation("strain-limit", f"{s.min()}..{s.max()} outside {low}..{top}")
    if (np.abs(ds) > rate * dt * (1 + 1e-9) + 2 * etol).any():
        k = int(np.argmax(np.abs(ds) - rate * dt))
        raise Violation("rate", f"step {k}: strain {ds[k]:.3e} in {dt[k]:.3e} s at rate {rate:.3e}")
    # every cycle: the history is the described piecewise linear function of time
    knots = np.concatenate([[0.0], np.cumsum(seg)])
    vals = np.array([0.0, emax, emax, emin, emin, 0.0])
    ttol = 1e-12 * N * P + 1e-9 * P
    for k in range(N):
        m = cy == k
        tau = t[m] - k * P
        if tau.min() < -ttol or tau.max() > P + ttol:
            raise Violation("cycle-time", f"cycle {k} covers {tau.min():.6g}..{tau.max():.6g} of {P:.6g}")
        want = at(np.clip(tau, 0, P), knots, vals)
        err = np.abs(s[m] - want)
        if (err > etol + 2 * rate * ttol).any():
            j = int(np.argmax(err))
            raise Violation("history", f"cycle {k} at {tau[j]:.6g} of {P:.6g}: strain {s[m][j]:.6g} instead of {want[j]:.6g}")
        # both ends of both holds are sampled, so the hold lasts in full
        for q in range(1, 6):
            if np.abs(tau - knots[q]).min() > ttol:
                raise Violation("hold", f"cycle {k}: no sample at {knots[q]:.6g}")
    ctx.sim_time += float(t[-1])
    return t, s, cy


def at(tau, knots, vals):
    out = np.zeros_like(tau)
    for j in range(5):
        w = knots[j + 1] - knots[j]
        m = (tau >= knots[j]) & (tau <= knots[j + 1])
        out[m] = vals[j + 1] if w == 0 else vals[j] + (tau[m] - knots[j]) / w * (vals[j + 1] - vals[j])
    return out


def run_event(c, ev, ctx):
    """one client generates and samples, from the present state of the stream"""
    with Draws(ev[1], ctx) as dr:
        d, cl = call(c["clients"][ev[0]])
    check_desc(d, cl)
    out = check_tension(d, cl, ctx) if cl["k"] == "tension" else check_cycle(d, cl, ctx)
    return d, out, dr.n


def execute(c, ctx):
    if c["kind"] == "independent":
        return independent(c, ctx)
    nc = len(c["clients"])
    streams = [np.random.RandomState(c["nseed"] + k).get_state() for k in range(nc)]
    hist = []
    for ev in c["events"]:
        k = ev[0]
        before(ev[2], hist, ctx)
        if c["own_streams"]:
            np.random.set_state(streams[k])
        st = np.random.get_state()
        d, out, nd = run_event(c, ev, ctx)
        streams[k] = np.random.get_state()
        hist.append((ev, st, np.random.get_state(), d, dict(d), out))
        ctx.event(k, sorted(d.items()))
        for x in out:
            ctx.tensor("h", np.ascontiguousarray(x).tobytes())
        cl = c["clients"][k]
        ctx.probe("descriptions")
        ctx.reach((cl["k"], tuple(sorted(ev[1].values())), cl.get("R") and tuple(cl["R"]), cl.get("N"), cl.get("nload"), cl.get("nhold"), cl.get("nsteps")))
    # replay every event from the stream it saw, in another order
    for ev, st, after, d, copy, out in reversed(hist):
        np.random.set_state(st)
        d2, out2, _ = run_event(c, ev, ctx)
        if d2 != copy:
            raise Violation("not-reproducible", f"client {ev[0]}: {copy} then {d2}")
        if any(not np.array_equal(a, b, equal_nan=True) for a, b in zip(out, out2)):
            raise Violation("not-reproducible", f"client {ev[0]}: history")
        now = np.random.get_state()
        if not np.array_equal(now[1], after[1]) or now[2:] != after[2:]:
            raise Violation("not-reproducible", "another amount of the stream was used")
        ctx.probe("replayed")


def before(what, hist, ctx):
    import torch

    if what == "none":
        return
    ctx.fault("before-" + what)
    from pyoptmat import experiments as e

    if what == "scribble":
        # the caller edits earlier descriptions
        for h in hist:
            for k in list(h[3]):
                h[3][k] = -5.0
    elif what == "fail":
        for f in (lambda: e.generate_random_cycle(max_strain=[1]), lambda: e.generate_random_tension(strain_rate=["x", 1])):
            try:
                f()
            except Exception:
                pass
    elif what == "draws":
        np.random.normal(size=3)
        np.random.uniform(size=2)
    else:
        torch.manual_seed(4)


def independent(c, ctx):
    """no two quantities of a description move together"""
    np.random.seed(c["nseed"])
    cl = c["client"]
    ds = [call(cl)[0] for _ in range(c["n"])]
    for d in ds:
        check_desc(d, cl)
    keys = [k for k in ds[0] if len({d[k] for d in ds}) > 1]
    rank = {k: np.argsort(np.argsort([d[k] for d in ds])) for k in keys}
    for i, a in enumerate(keys):
        for b in keys[i + 1 :]:
            rho = float(np.corrcoef(rank[a], rank[b])[0, 1])
            if abs(rho) > 0.42:
                raise Violation("dependent", f"{a} and {b}: rank correlation {rho:.2f} over {c['n']} descriptions")
        # nor with the previous description
        rho = float(np.corrcoef(rank[a][1:], rank[a][:-1])[0, 1])
        if abs(rho) > 0.42:
            raise Violation("dependent", f"{a} and its predecessor: rank correlation {rho:.2f}")
    wide = {"tension": {"strain_rate": "rate"}, "cycle": {"max_strain": "emax", "R": "R", "strain_rate": "rate", "tension_hold": "th", "compression_hold": "ch"}}[cl["k"]]
    for k, rg in wide.items():
        if max(cl[rg]) > min(cl[rg]) * (1 + 1e-9) + 1e-9 and k not in keys and k != "max_strain":
            raise Violation("dependent", f"{k} is the same in {c['n']} descriptions over {cl[rg]}")
    ctx.event("independent", [sorted(d.items()) for d in ds[:3]])
    ctx.probe("descriptions", len(ds))
    ctx.reach(("independent", cl["k"], len(keys)))


def shrink(c):
    if c["kind"] != "clients":
        return
    for ev in shrink_list(c["events"], 1):
        yield dict(c, events=ev)
    for i, ev in enumerate(c["events"]):
        if ev[2] != "none":
            yield dict(c, events=c["events"][:i] + [[ev[0], ev[1], "none"]] + c["events"][i + 1 :])
        for k in ev[1]:
            yield dict(c, events=c["events"][:i] + [[ev[0], {a: b for a, b in ev[1].items() if a != k}, ev[2]]] + c["events"][i + 1 :])
    for i, cl in enumerate(c["clients"]):
        if cl.get("N", 1) > 1:
            yield dict(c, clients=c["clients"][:i] + [dict(cl, N=cl["N"] // 2)] + c["clients"][i + 1 :])
