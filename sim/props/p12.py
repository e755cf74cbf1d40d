"""P12: solver objects can be reused any number of times, in any order."""
import torch

from sim import env, ref, zoo
from sim.core import Skip, Violation, shrink_list

RUNS = {"quick": 520, "thorough": 20000}
RULE = "one run = one history of operations on a pool of shared objects; distinct = distinct event-log digest (bits of every result), nontrivial = at least two uses of the same object"
TIME = "number of operations on shared objects is the only clock"
MEASURE = "distinct (object kind, previous operation, operation, fault) transitions"
REAL = ["pyoptmat.chunktime operators and factorizations", "pyoptmat.solvers (Newton, GMRES, preconditioners)", "pyoptmat.utility interpolators", "pyoptmat.ode integrator objects", "pyoptmat.models.ModelIntegrator"]
STUBS = ["user equations (harness functions that may raise at a chosen evaluation)"]
ASSUMPTIONS = [
    "results of repeated uses are compared with a freshly built object (1e-11 relative) and with dense algebra written in the harness (1e-7 relative)",
    "matrices are well conditioned; GMRES problems with an exactly zero residual member are excluded (torch rejects them loudly)",
]
CHUNK = 10


def G(seed):
    return torch.Generator().manual_seed(seed)


# ------------------------------------------------------------------- generation
def generate(rng, tier, i):
    kind = rng.choice(["operator", "operator", "operator", "nonlinear", "nonlinear", "interp", "integrator", "precond", "precond", "ode"])
    big = tier == "thorough"
    c = {"kind": kind}
    if kind == "operator":
        nblk = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 15, 16, 17] + ([23, 31, 33, 40] if big else []))
        c.update(nblk=nblk, sbat=rng.choice([1, 2, 3]), sblk=rng.choice([1, 2, 3, 4]), mseed=rng.randrange(10**6))
        kinds = ["thomas", "pcr", "hybrid", "forward", "forward", "ctx", "diag"]
        # the main diagonal is always there: without it a matrix may have empty last rows and no known size
        c["diags"] = rng.sample([d for d in range(1 - nblk, nblk) if d], min(2 * nblk - 2, rng.randint(0, 3)))
        c["diags"].insert(rng.randint(0, len(c["diags"])), 0)
        c["objs"] = []
        for _ in range(rng.randint(1, 4)):
            k = rng.choice(kinds)
            o = {"k": k}
            if k == "hybrid" or k == "forward":
                o["min"] = rng.choice([0, 1, 2, 3, 4, 8])
            if k == "forward":
                o["inv"] = rng.choice(["thomas", "pcr", "hybrid"])
            if k == "ctx":
                o["m"] = rng.choice(["dense", "direct"])
                o["inv"] = rng.choice(["thomas", "pcr", "hybrid"])
                o["min"] = rng.choice([0, 1, 2, 3, 8])
            c["objs"].append(o)
        c["nrhs"] = rng.randint(1, 3)
        c["ops"] = []
        for _ in range(rng.randint(2, 14)):
            f = None
            if rng.random() < 0.25:
                f = [rng.choice(["line", "op"]), rng.randint(1, 60)]
            c["ops"].append([rng.randrange(len(c["objs"])), rng.randrange(6), rng.randrange(c["nrhs"]), rng.choice(["plain", "refill", "strided", "expand", "grad"]), f])
    elif kind == "nonlinear":
        c.update(size=rng.choice([2, 3, 4, 5]), nb=rng.choice([1, 2, 3]))
        c["solvers"] = [rng.choice(["reuse", "reuse", "nr", "nrbt", "chunk", "gmres-lu", "gmres-jac"]) for _ in range(rng.randint(1, 3))]
        c["ops"] = []
        for _ in range(rng.randint(2, 8)):
            fault = rng.choice([None, None, None, ["raise", rng.randint(1, 6)], ["nan", rng.randint(1, 4)], ["line", rng.randint(1, 80)]])
            c["ops"].append(
                {
                    "s": rng.randrange(len(c["solvers"])),
                    "p": rng.randrange(3),
                    "nb": rng.choice([0, 0, 0, 1]),
                    "lin": rng.choice(["lu", "lu", "diag"]),
                    "fault": fault,
                }
            )
        c["pseed"] = rng.randrange(10**6)
    elif kind == "interp":
        nb, n = rng.choice([1, 2, 3]), rng.randint(3, 9)
        same = rng.random() < 0.4
        ts = zoo.gen_times(rng, n, nb)
        if same:
            ts = [[r[0]] * nb for r in ts]
        c.update(times=ts, same=same, vseed=rng.randrange(10**6))
        c["ops"] = [
            [rng.choice(["arb", "batch", "cheat", "fn", "fn1"]), rng.choice([0, 1, 2, 3]), rng.randrange(10**6), rng.choice(["in", "knots", "outside", "nan"])]
            for _ in range(rng.randint(2, 10))
        ]
    elif kind == "precond":
        c.update(size=rng.choice([1, 2, 3, 5]), nb=rng.choice([1, 2, 3]), pseed=rng.randrange(10**6))
        c["objs"] = [[rng.choice(["lu", "jac", "none"]), rng.randrange(3)] for _ in range(rng.randint(1, 4))]
        c["ops"] = []
        for _ in range(rng.randint(2, 12)):
            f = [rng.choice(["line", "op"]), rng.randint(1, 40)] if rng.random() < 0.2 else None
            c["ops"].append([rng.randrange(len(c["objs"])), rng.choice(["dot", "dot", "gmres", "gmres-iters", "guess", "grad"]), rng.randrange(3), rng.randrange(4), rng.choice(["refill", "refill", "fresh", "strided"]), f])
    elif kind == "ode":
        nb = rng.choice([1, 2])
        c["ode"] = zoo.gen_toy(rng)
        c["grids"] = [zoo.gen_times(rng, rng.randint(3, 9), nb) for _ in range(3)]
        c["y0"] = [[zoo.rnd(rng, 0.05, 0.9) for _ in range(c["ode"]["size"])] for _ in range(nb)]
        c["sol"] = zoo.gen_solver(rng, 6, adjoint=True)
        c["ops"] = []
        for _ in range(rng.randint(2, 7)):
            f = [rng.choice(["line", "op"]), int(10 ** rng.uniform(0, 2.5))] if rng.random() < 0.25 else None
            c["ops"].append([rng.choice(["plain", "plain", "cache", "cache", "rewind", "rewind"]), rng.randrange(3), rng.randrange(10**6), f])
    else:
        buffers = rng.random() < 0.6
        W = zoo.gen_workload(rng, light=True, n=rng.randint(5, 8), nb=rng.choice([1, 2]), tpk=("const", "poly", "piece", "bounded", "law") if buffers else None)
        c["w"] = W
        nb = len(W["hist"])
        n = len(W["hist"][0]["times"])
        c["more"] = []
        for _ in range(rng.randint(1, 2)):
            # refilled buffers need one shape
            nb2 = nb if buffers else rng.choice([1, nb])
            n2 = n if buffers else rng.choice([n, n + 2])
            c["more"].append([zoo.gen_history(rng, W["ctl"] if W["ctl"] < 2 else rng.choice([0, 1]), n2) for _ in range(nb2)])
        c["ops"] = []
        for _ in range(rng.randint(2, 5)):
            f = None
            if rng.random() < (0.15 if buffers else 0.3):
                f = [rng.choice(["line", "op"]), int(10 ** rng.uniform(0, 3.5))]
            held = rng.choice(["tTdc", "tTdc", "T", "tT", "d", "t", ""]) if buffers else ""
            scale = rng.choice([1, 1, 1, 1.01, 0.98])
            c["ops"].append([rng.randrange(1 + len(c["more"])), rng.choice(["val", "val", "grad", "strain", "stress"]), f, held, scale])
    return c


# -------------------------------------------------------------------- operators
def make_ab(c):
    g = G(c["mseed"])
    A = torch.rand(c["nblk"], c["sbat"], c["sblk"], c["sblk"], generator=g) - 0.5
    A = A + torch.eye(c["sblk"]) * (1.0 + 0.6 * c["sblk"])
    B = torch.rand(max(c["nblk"] - 1, 0), c["sbat"], c["sblk"], c["sblk"], generator=g) - 0.5
    return A, B


def dense(A, B):
    nblk, sbat, s, _ = A.shape
    M = torch.zeros(sbat, nblk * s, nblk * s)
    for k in range(nblk):
        M[:, k * s : k * s + s, k * s : k * s + s] = A[k]
        if k:
            M[:, k * s : k * s + s, (k - 1) * s : k * s] = B[k - 1]
    return M


def inv_of(name, mn):
    from pyoptmat import chunktime as ct

    return {
        "thomas": ct.BidiagonalThomasFactorization,
        "pcr": ct.BidiagonalPCRFactorization,
        "hybrid": lambda A, B: ct.BidiagonalHybridFactorization(A, B, min_size=mn),
    }[name]


def make_diags(c):
    """blocks on arbitrary diagonals: (list of blocks, list of diagonals, the dense matrix)"""
    ds = c.get("diags", [0])
    g = G(c["mseed"] + 7)
    n, nb, s = c["nblk"], c["sbat"], c["sblk"]
    data = [torch.rand(n - abs(d), nb, s, s, generator=g) - 0.5 for d in ds]
    M = torch.zeros(nb, n * s, n * s)
    for d, x in zip(ds, data):
        for k in range(n - abs(d)):
            i, j = (k - d, k) if d < 0 else (k, k + d)
            M[:, i * s : i * s + s, j * s : j * s + s] = x[k]
    return data, list(ds), M


def build(o, A, B, diags=None):
    from pyoptmat import chunktime as ct

    k = o["k"]
    if k == "diag":
        return ct.SquareBatchedBlockDiagonalMatrix(*diags)
    if k in ("thomas", "pcr", "hybrid"):
        return inv_of(k, o.get("min", 0))(A, B)
    if k == "forward":
        return ct.BidiagonalForwardOperator(A, B, inverse_operator=inv_of(o["inv"], o["min"]))
    J = ct.BidiagonalForwardOperator(A, B, inverse_operator=inv_of(o["inv"], o["min"]))
    return (ct.ChunkTimeOperatorSolverContext(o["m"]), J)


def apply(o, obj, op, v):
    """returns (name, result, which dense operation it equals)"""
    k = o["k"]
    if k in ("thomas", "pcr", "hybrid"):
        if op % 2 == 0:
            return "call", obj(v), "inv"
        nb = v.shape[0]
        w = v.reshape(nb, obj.nblk, obj.sblk).transpose(0, 1).unsqueeze(-1)
        r = obj.matvec(w)
        return "matvec", r.squeeze(-1).transpose(0, 1).flatten(start_dim=1), "inv"
    if k == "diag":
        op = op % 3
        if op == 0:
            return "dense", obj.to_dense(), "diags"
        if op == 1:
            return "coo", obj.to_batched_coo().to_dense().movedim(-1, 0), "diags"
        return "csr", torch.stack([x.to_dense() for x in obj.to_unrolled_csr()]), "diags"
    if k == "forward":
        op = op % 6
        if op in (0, 1):
            return "mul", obj(v.contiguous()), "mul"
        if op == 2:
            return "inverse", obj.inverse()(v), "inv"
        if op == 3:
            return "dense", obj.to_diag().to_dense(), "dense"
        if op == 4:
            return "coo", obj.to_diag().to_batched_coo().to_dense().movedim(-1, 0), "dense"
        return "csr", torch.stack([x.to_dense() for x in obj.to_diag().to_unrolled_csr()]), "dense"
    return "solve", obj[0].solve(obj[1], v), "inv"


def run_operator(c, ctx):
    A, B = make_ab(c)
    M = dense(A, B)
    g = G(c["mseed"] + 1)
    n = c["nblk"] * c["sblk"]
    rhs = [torch.rand(c["sbat"], n, generator=g) - 0.5 for _ in range(c["nrhs"])]
    data, ds, MD = make_diags(c)
    objs = [build(o, A, B, (data, ds)) for o in c["objs"]]
    tensors = [("A", A), ("B", B)] + [(f"rhs{i}", r) for i, r in enumerate(rhs)] + [(f"diagonal {d}", x) for d, x in zip(c.get("diags", [0]), data)]
    watch, held = env.Watch(tensors), [id(x) for x in data]
    used = {}
    buf = torch.zeros(c["sbat"], n)
    for step, (oi, op, ri, form, fault) in enumerate(c["ops"]):
        o = c["objs"][oi]
        v = rhs[ri]
        if form == "strided":
            v = torch.stack([v, v], dim=-1)[..., 1]
        elif form == "expand":
            v = v[:1].expand(c["sbat"], n)
        elif form == "refill":
            # the same buffer again, holding something else
            v = buf.copy_(v * (1 + 0.1 * step))
        elif form == "grad":
            v = v.clone().requires_grad_(True)
        local = env.Watch([("right hand side", v)])
        where = f"{o['k']} step {step} form {form}"
        name = None
        if fault:
            tr = env.LineTracer(at=fault[1]) if fault[0] == "line" else env.OpTracer(at=fault[1])
            try:
                with tr:
                    name, res, what = apply(o, objs[oi], op, v)
            except (env.Injected, env.InjectedError):
                ctx.fault("interrupted-" + fault[0])
                local.check("operand-modified", where + " after a fault")
                watch.check("operand-modified", where + " after a fault")
                used[oi] = used.get(oi, 0) + 1
                ctx.reach((o["k"], "fault", fault[0]))
                continue
        else:
            name, res, what = apply(o, objs[oi], op, v)
        local.check("operand-modified", where)
        watch.check("operand-modified", where)
        if ds != c.get("diags", [0]) or [id(x) for x in data] != held:
            raise Violation("operand-modified", f"{where}: the lists of blocks and diagonals")
        if what == "dense":
            want = M
        elif what == "diags":
            want = MD
        elif what == "mul":
            want = (M @ v.detach().unsqueeze(-1)).squeeze(-1)
        else:
            want = torch.linalg.solve(M, v.detach().unsqueeze(-1)).squeeze(-1)
        ctx.close(res, want, 1e-7, "wrong-result", f"{where} {name} use {used.get(oi, 0) + 1}")
        A2, B2 = A.clone(), B.clone()
        _, fresh, _ = apply(o, build(o, A2, B2, make_diags(c)[:2]), op, v.detach().clone())
        ctx.close(res, fresh, 1e-11, "differs-from-fresh", f"{where} {name} use {used.get(oi, 0) + 1}")
        ctx.reach((o["k"], used.get(("last", oi)), name, form))
        used[("last", oi)] = name
        used[oi] = used.get(oi, 0) + 1
        ctx.tensor(name, res, hold=where if form != "plain" else None)
        # a result must not be a window on the object's state
        if form == "plain" and isinstance(res, torch.Tensor) and not res.requires_grad:
            res.add_(1.0e3)
            watch.check("operand-aliased", where + " by writing to the result")
    ctx.nontrivial = any(isinstance(k, int) and u > 1 for k, u in used.items())


# ------------------------------------------------------------ nonlinear solvers
class Prob:
    def __init__(self, seed, nb, n):
        g = G(seed)
        self.A = torch.rand(nb, n, n, generator=g) * 0.3 + torch.diag_embed(3.0 + 4.0 * torch.rand(nb, n, generator=g))
        self.b = torch.rand(nb, n, generator=g) + 0.5
        self.k = 0.3
        self.calls = 0
        self.fault = None

    def __call__(self, x):
        self.calls += 1
        R = (self.A @ x.unsqueeze(-1)).squeeze(-1) + self.k * x**3 - self.b
        J = self.A + torch.diag_embed(3 * self.k * x**2)
        if self.fault and self.calls == self.fault[1]:
            if self.fault[0] == "raise":
                raise env.InjectedError("user equations failed")
            if self.fault[0] == "nan":
                return R * float("nan"), J * float("nan")
        return R, J


def run_nonlinear(c, ctx):
    from pyoptmat import chunktime as ct
    from pyoptmat import solvers as so

    objs = [so.PreconditionerReuseNonlinearSolver() if s == "reuse" else None for s in c["solvers"]]
    n = c["size"]
    bufs = {}
    for step, op in enumerate(c["ops"]):
        sk = c["solvers"][op["s"]]
        nb = c["nb"] + op["nb"]
        prob = Prob(c["pseed"] + op["p"], nb, n)
        prob.fault = op["fault"] if op["fault"] and op["fault"][0] in ("raise", "nan") else None
        x0 = bufs.setdefault(nb, torch.zeros(nb, n)).fill_(0.05)
        watch = env.Watch([("x0", x0), ("A", prob.A), ("b", prob.b)])

        def go(fn, x0, obj):
            kw = dict(rtol=1e-12, atol=1e-10, miter=40)
            if sk == "reuse":
                return obj.solve(fn, x0, **kw)[0]
            if sk == "nr":
                return so.newton_raphson(fn, x0, linsolver="lu", **kw)[0]
            if sk == "nrbt":
                return so.newton_raphson_bt(fn, x0, linsolver="lu", **kw)[0]
            if sk == "chunk":
                A1 = torch.zeros(0, nb, n, n)

                def f2(x):
                    R, J = fn(x)
                    return R, ct.BidiagonalForwardOperator(J.unsqueeze(0), A1)

                return ct.newton_raphson_chunk(f2, x0, ct.ChunkTimeOperatorSolverContext("direct"), **kw)
            R, J = fn(x0)
            if sk == "gmres-lu":
                return so.lu_gmres(J, R, maxiter=n + 2)
            return so.jacobi_gmres(J, R, maxiter=n + 2, check=1, tol=1e-11)

        where = f"{sk} step {step} problem {op['p']} batch {nb}"
        fault = op["fault"]
        try:
            if fault and fault[0] == "line":
                with env.LineTracer(at=fault[1]):
                    x = go(prob, x0, objs[op["s"]])
            else:
                x = go(prob, x0, objs[op["s"]])
        except (env.Injected, env.InjectedError):
            ctx.fault("interrupted-" + fault[0])
            watch.check("operand-modified", where + " after a fault")
            continue
        except Exception as e:
            if prob.fault and prob.fault[0] == "nan":
                ctx.fault("nan-equations-raised")
                watch.check("operand-modified", where)
                continue
            raise Violation("reuse-raises", f"{where}: {str(e)[:160]}")
        watch.check("operand-modified", where)
        if prob.fault and prob.fault[0] == "nan" and prob.calls >= prob.fault[1]:
            ctx.fault("nan-equations")
            ctx.event("nan")
            continue
        good = Prob(c["pseed"] + op["p"], nb, n)
        if sk.startswith("gmres"):
            R, J = good(torch.full((nb, n), 0.05))
            want = torch.linalg.solve(J, R.unsqueeze(-1)).squeeze(-1)
            ctx.close(x, want, 1e-6, "wrong-result", where)
        else:
            y = x0.clone()
            for _ in range(30):
                R, J = good(y)
                y = y - torch.linalg.solve(J, R.unsqueeze(-1)).squeeze(-1)
            ctx.close(x, y, 1e-6, "wrong-result", where)
        ctx.reach((sk, op["p"], op["nb"], step > 0))
        ctx.tensor("x", x, hold=where if step % 2 else None)
        if step % 2 == 0:
            x.add_(1.0)
            watch.check("operand-aliased", where + " by writing to the result")
    ctx.nontrivial = len(c["ops"]) > 1


# --------------------------------------------------------------- interpolators
def run_interp(c, ctx):
    from pyoptmat import utility as ut

    times = torch.tensor(c["times"])
    nb = times.shape[1]
    vals = torch.rand(times.shape, generator=G(c["vseed"])) * 3 - 1
    objs = {
        "arb": ut.ArbitraryBatchTimeSeriesInterpolator(times, vals),
        "batch": ut.BatchTimeSeriesInterpolator(times, vals),
        "cheat": ut.CheaterBatchTimeSeriesInterpolator(times, vals),
    }
    watch = env.Watch([("times", times), ("values", vals)])
    R = ref.interp(times, vals)
    bufs = {}
    for step, (k, dim, s, where) in enumerate(c["ops"]):
        if k == "cheat" and not c["same"]:
            k = "batch"
        if k == "fn1" and not c["same"]:
            k = "fn"
        shape = (nb,)
        if k == "arb":
            shape = {0: (nb,), 1: (3, nb), 2: (6, nb), 3: (1, nb)}[dim]
        u = torch.rand(shape, generator=G(s)) * 0.98 + 0.01
        tt = times[0] + u * (times[-1] - times[0])
        if k in ("cheat", "fn1"):
            tt = tt[..., :1].expand(shape).clone()
        if where == "knots":
            tt = times[s % times.shape[0]].expand(shape).clone()
            if k in ("batch", "fn", "fn1"):
                tt = times[1 + s % (times.shape[0] - 2)].expand(shape).clone()
        bad = k == "arb" and where in ("outside", "nan")
        tt = bufs.setdefault(tuple(shape), torch.zeros(shape)).copy_(tt) if s % 3 else tt.clone()
        if bad:
            tt.view(-1)[s % tt.numel()] = float("nan") if where == "nan" else 1e9
        w2 = env.Watch([("t", tt)])
        try:
            if k == "fn":
                got = ut.timeseries_interpolate_batch_times(times, vals, tt)
            elif k == "fn1":
                got = ut.timeseries_interpolate_single_times(times[:, 0], vals, tt[0])
            else:
                got = objs[k](tt)
        except Exception as e:
            if bad:
                ctx.fault("bad-point")
                watch.check("operand-modified", f"{k} step {step}")
                w2.check("operand-modified", f"{k} step {step}")
                continue
            raise Violation("reuse-raises", f"{k} step {step}: {str(e)[:160]}")
        watch.check("operand-modified", f"{k} step {step}")
        w2.check("operand-modified", f"{k} step {step}")
        if bad:
            # no error: the healthy columns must still be right
            ok = torch.isfinite(tt) & (tt <= times[-1])
            ctx.fault("bad-point")
            ctx.close(torch.where(ok, got, 0.0), torch.where(ok, R(torch.where(ok, tt, times[0])), 0.0), 1e-9, "wrong-result", f"{k} step {step}")
            continue
        got = got.reshape(tt.shape)
        ctx.close(got, R(tt), 1e-9, "wrong-result", f"{k} step {step} {where}")
        ctx.reach((k, dim, where, step > 0))
        ctx.tensor("v", got, hold=f"{k} step {step}")
    ctx.nontrivial = len(c["ops"]) > 1


# -------------------------------------------------------------------- integrator
def run_integrator(c, ctx):
    from pyoptmat import models

    W = c["w"]
    pb = zoo.PBuild("param")
    m, _ = zoo.make_model(W["model"], pb)
    kw = W["solver"]["kw"]
    shared = models.ModelIntegrator(m, use_adjoint=W["solver"]["adjoint"], **kw)
    pool = [W["hist"]] + c["more"]
    stacked = [zoo.stack_history(h) for h in pool]
    named = [(f"{nm}{i}", t) for i, s in enumerate(stacked) for nm, t in zip(["times", "temps", "data", "control"], s)]
    named += list(zip(pb.names, pb.leaves))
    watch = env.Watch(named)

    # arrays the caller refills in place for the next call
    buffers = {k: torch.zeros_like(x) for k, x in zip("tTdc", stacked[0])}

    def go(integ, hi, mode, held=""):
        given = list(stacked[hi])
        for j, k in enumerate("tTdc"):
            if k in held and buffers[k].shape == given[j].shape:
                given[j] = buffers[k].copy_(given[j])
        t, T, d, con = given
        if mode == "strain" and bool((con == 0).all()):
            y = integ.solve_strain(t, d, T)
        elif mode == "stress" and bool((con == 1).all()):
            y = integ.solve_stress(t, d, T)
        else:
            y = integ.solve_both(t, T, d, con)
        g = []
        if mode == "grad":
            gy = torch.linspace(0.5, 1.5, y.numel()).reshape(y.shape)
            g = torch.autograd.grad(y, pb.leaves, gy, allow_unused=True)
            g = [torch.zeros_like(p) if x is None else x for x, p in zip(g, pb.leaves)]
        return y.detach(), g

    with env.solver_signals() as sig:
        base = [go(models.ModelIntegrator(m, use_adjoint=False, **kw), hi, "val")[0] for hi in range(len(pool))]
    if sig or not all(bool(torch.isfinite(b).all()) for b in base):
        raise Skip("workload does not converge")
    uses = 0
    for step, (hi, mode, fault, held, scale) in enumerate(c["ops"]):
        where = f"integrator step {step} history {hi} {mode} {held}"
        if scale != 1:
            # an optimiser step
            with torch.no_grad():
                for x in pb.leaves:
                    x.mul_(scale)
            watch = env.Watch(named)
        try:
            if fault:
                tr = env.LineTracer(at=fault[1]) if fault[0] == "line" else env.OpTracer(at=fault[1])
                with tr:
                    y, g = go(shared, hi, mode, held)
            else:
                y, g = go(shared, hi, mode, held)
        except (env.Injected, env.InjectedError):
            ctx.fault("interrupted-" + fault[0])
            watch.check("operand-modified", where + " after a fault")
            uses += 1
            continue
        watch.check("operand-modified", where)
        pb2 = zoo.PBuild("param")
        m2, _ = zoo.make_model(W["model"], pb2)
        with torch.no_grad():
            for x, z in zip(pb2.leaves, pb.leaves):
                x.copy_(z)
        save, pb.leaves = pb.leaves, pb2.leaves
        try:
            y2, g2 = go(models.ModelIntegrator(m2, use_adjoint=W["solver"]["adjoint"], **kw), hi, mode)
        finally:
            pb.leaves = save
        ctx.close(y, y2, 1e-11, "differs-from-fresh", where)
        for nm, a, b in zip(pb.names, g, g2):
            ctx.close(a, b, 1e-9, "gradient-differs-from-fresh", where + " " + nm)
        ctx.reach(("integrator", mode, hi == 0, held, uses))
        ctx.tensor("y", y, hold=where)
        for a in g:
            ctx.tensor("g", a, hold=where)
        uses += 1
        ctx.sim_time += float(stacked[hi][0][-1].max())
    ctx.nontrivial = uses > 1


# --------------------------------------------------------------- preconditioners
def run_precond(c, ctx):
    from pyoptmat import solvers as so

    n, nb = c["size"], c["nb"]
    mats = [Prob(c["pseed"] + i, nb, n).A for i in range(3)]
    vecs = [torch.rand(nb, n, generator=G(c["pseed"] + 10 + i)) + 0.2 for i in range(4)]
    make = {"lu": so.LUPreconitionerOperator, "jac": so.JacobiPreconitionerOperator, "none": lambda A: so.NoOp()}
    objs = [make[k](mats[m]) for k, m in c["objs"]]
    watch = env.Watch([(f"A{i}", x) for i, x in enumerate(mats)] + [(f"b{i}", x) for i, x in enumerate(vecs)])
    buf = torch.zeros(nb, n)
    uses = {}
    for step, (oi, op, mi, vi, form, fault) in enumerate(c["ops"]):
        k, m0 = c["objs"][oi]
        v = vecs[vi]
        if form == "refill":
            v = buf.copy_(v)
        elif form == "strided":
            v = torch.stack([v, v], dim=-1)[..., 1]
        else:
            v = v.clone()
        if op == "grad":
            v = v.clone().requires_grad_(True)
        local = env.Watch([("right hand side", v)])
        where = f"preconditioner {k} step {step} {op} {form}"
        A = mats[mi]
        d0 = torch.diagonal(mats[m0], dim1=-2, dim2=-1)
        g = None

        def go():
            if op == "dot":
                return objs[oi].dot(v)
            if op == "grad":
                y = objs[oi].dot(v)
                return torch.autograd.grad(y, v, torch.ones_like(y))[0]
            kw = dict(M=objs[oi], tol=1e-11, maxiter=4 * n + 4, check=1)
            if op == "guess":
                kw["x0"] = vecs[(vi + 1) % 4]
            if op == "gmres-iters":
                return so.gmres(A, v, return_iters=True, **kw)[0]
            return so.gmres(A, v, **kw)

        try:
            if fault:
                tr = env.LineTracer(at=fault[1]) if fault[0] == "line" else env.OpTracer(at=fault[1])
                with tr:
                    y = go()
            else:
                y = go()
        except (env.Injected, env.InjectedError):
            ctx.fault("interrupted-" + fault[0])
            local.check("operand-modified", where + " after a fault")
            watch.check("operand-modified", where + " after a fault")
            uses[oi] = uses.get(oi, 0) + 1
            continue
        local.check("operand-modified", where)
        watch.check("operand-modified", where)
        vd = v.detach()
        if op in ("dot", "grad"):
            w = vd if op == "dot" else torch.ones_like(vd)
            M = mats[m0] if op == "dot" else mats[m0].transpose(-1, -2)
            want = {"lu": lambda: torch.linalg.solve(M, w.unsqueeze(-1)).squeeze(-1), "jac": lambda: w / d0, "none": lambda: w}[k]()
        else:
            want = torch.linalg.solve(A, vd.unsqueeze(-1)).squeeze(-1)
        ctx.close(y, want, 1e-6 if "gmres" in op or op == "guess" else 1e-9, "wrong-result", f"{where} use {uses.get(oi, 0) + 1}")
        ctx.reach(("precond", k, uses.get(("last", oi)), op, form))
        uses[oi], uses[("last", oi)] = uses.get(oi, 0) + 1, op
        ctx.tensor("y", y, hold=where if k != "none" else None)
    ctx.nontrivial = any(isinstance(q, int) and u > 1 for q, u in uses.items())


# ------------------------------------------------------------ time step integrators
def run_ode(c, ctx):
    """one FixedGridBlockSolver for several time grids, cached and rewound in any order"""
    from pyoptmat import ode

    kw = {k: v for k, v in c["sol"]["kw"].items() if k != "method"}
    scheme = ode.int_methods[c["sol"]["kw"]["method"]]
    y0 = torch.tensor(c["y0"])
    grids = [torch.tensor(g) for g in c["grids"]]

    def make():
        f = zoo.make_ode(c["ode"])
        return f, ode.FixedGridBlockSolver(f, y0, scheme=scheme, adjoint_params=tuple(f.parameters()), **kw)

    f, S = make()
    watch = env.Watch([("y0", y0)] + [(f"times{i}", g) for i, g in enumerate(grids)] + [(f"p{i}", p) for i, p in enumerate(f.parameters())])
    with env.solver_signals() as sig, torch.no_grad():
        for g in grids:
            make()[1].integrate(g)
    if sig:
        raise Skip("workload does not converge")
    cached, uses = None, 0
    for step, (op, gi, seed, fault) in enumerate(c["ops"]):
        where = f"solver object step {step} {op} grid {gi}"

        def go(S, op):
            with torch.no_grad():
                if op != "rewind":
                    return [S.integrate(grids[gi], cache_adjoint=op == "cache")]
                gy = torch.rand((grids[cached].shape[0],) + tuple(y0.shape), generator=G(seed))
                gp, g0 = S.rewind(gy)
                return list(gp) + [g0]

        if op == "rewind" and cached is None:
            continue
        try:
            if fault:
                tr = env.LineTracer(at=fault[1]) if fault[0] == "line" else env.OpTracer(at=fault[1])
                with tr:
                    out = go(S, op)
            else:
                out = go(S, op)
        except (env.Injected, env.InjectedError):
            ctx.fault("interrupted-" + fault[0])
            watch.check("operand-modified", where + " after a fault")
            if op == "cache":
                # the caller cannot know how far it came
                cached = None
            continue
        watch.check("operand-modified", where)
        _, S2 = make()
        if op == "rewind":
            with torch.no_grad():
                S2.integrate(grids[cached], cache_adjoint=True)
        want = go(S2, op)
        if op == "cache":
            cached = gi
        for a, b in zip(out, want):
            ctx.close(a, b, 1e-11, "differs-from-fresh", where + f" use {uses + 1}")
            ctx.tensor("y", a, hold=where)
        ctx.reach(("ode", op, cached, uses > 0))
        uses += 1
        ctx.sim_time += float(grids[gi][-1].max())
    ctx.nontrivial = uses > 1


def execute(c, ctx):
    {"precond": run_precond, "ode": run_ode, "operator": run_operator, "nonlinear": run_nonlinear, "interp": run_interp, "integrator": run_integrator}[c["kind"]](c, ctx)
    ctx.probe("runs-" + c["kind"])


def shrink(c):
    for ops in shrink_list(c["ops"], keep=1):
        yield dict(c, ops=ops)
    if c["kind"] == "operator":
        for k in ("sbat", "sblk", "nblk"):
            for v in range(1, c[k]):
                if k == "nblk" and max(map(abs, c.get("diags", [0]))) >= v:
                    continue
                yield dict(c, **{k: v})
        for i, op in enumerate(c["ops"]):
            if op[4] is not None:
                yield dict(c, ops=c["ops"][:i] + [op[:4] + [None]] + c["ops"][i + 1 :])
            if op[3] != "plain":
                yield dict(c, ops=c["ops"][:i] + [op[:3] + ["plain", op[4]]] + c["ops"][i + 1 :])
    if c["kind"] == "nonlinear":
        for i, op in enumerate(c["ops"]):
            if op["fault"] is not None:
                yield dict(c, ops=c["ops"][:i] + [dict(op, fault=None)] + c["ops"][i + 1 :])
        if c["size"] > 2:
            yield dict(c, size=2)
        if c["nb"] > 1:
            yield dict(c, nb=1)
