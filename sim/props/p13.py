"""P13: loading experimental data is complete and correct or fails."""
import io

import numpy as np
import torch

from sim import env, zoo
from sim.core import CaseTimeout, Violation, shrink_list

RUNS = {"quick": 1500, "thorough": 60000}
RULE = "one run = one stored data set loaded several times through failing storage and at least once intact; distinct = distinct event-log digest (bits of every loaded tensor and every failure), nontrivial = at least one load returned data for two or more tests"
TIME = "number of storage accesses is the only clock"
MEASURE = "distinct (storage, stored types, fault kind, access hit, outcome) tuples"
REAL = ["pyoptmat.experiments.load_results", "xarray, h5netcdf, h5py, HDF5 (file storage)"]
STUBS = ["storage: mapping of arrays or an in-memory file object that fails, shortens or reorders reads", "allocator contents (poisoned)"]
ASSUMPTIONS = [
    "bytes changed inside a numeric array of a file without checksum cannot be noticed by any reader and are not injected",
    "a label replaced by another known label cannot be noticed and is not injected",
]
CHUNK = 20
KEYS = ["time", "temperature", "strain", "stress", "cycle", "type", "control"]
BADLABEL = ["typo", "case", "space", "empty", "number", "none", "swap", "bytes"]
DT = {"f8": np.float64, "f4": np.float32, "i8": np.int64, "i4": np.int32}


def generate(rng, tier, i):
    nt = rng.choice([1, 1, 2, 3, 4, 6, 9])
    n = rng.choice([1, 2, 3, 7, 20])
    mode = rng.choice(["mixed", "mixed", "mixed", "strain", "stress"])
    tests = []
    for _ in range(nt):
        ctl = {"strain": 0, "stress": 1, "mixed": rng.choice([0, 1])}[mode]
        tests.append([rng.choice(list(zoo.TYPES)), ctl])
    c = {"n": n, "tests": tests, "dseed": rng.randrange(10**6), "store": rng.choice(["mapping", "mapping", "dataset", "file"])}
    c["dtypes"] = (["f8"] * 4 if rng.random() < 0.8 else [rng.choice(["f8", "f8", "f4", "i8"]) for _ in range(4)]) + [rng.choice(["i8", "i4"])]
    c["odd"] = rng.choice([None, None, None, "nan", "inf", "column"])
    c["labels"] = rng.choice(["str", "object"])
    c["loads"] = []
    for _ in range(rng.randint(1, 5)):
        ld = {"perm": rng.random() < 0.5, "pseed": rng.randrange(10**6), "poison": rng.choice([None, "nan", "huge", "one", "neg"]), "fault": None, "scribble": rng.random() < 0.4}
        if rng.random() < 0.7:
            if c["store"] == "file":
                k = rng.choice(["read-error", "read-error", "truncated", "label", "missing"])
            elif c["store"] == "dataset":
                k = rng.choice(["label", "missing", "interrupt"])
            else:
                k = rng.choice(["read-error", "short-rows", "one-row", "short-tests", "long", "empty", "missing", "label", "label", "interrupt"])
            at = rng.randrange(7)
            ld["fault"] = [k, at, rng.randrange(60) if k != "label" else rng.choice(BADLABEL), rng.randrange(max(nt, 1))]
        c["loads"].append(ld)
    c["loads"].append({"perm": False, "pseed": 0, "poison": rng.choice([None, "nan"]), "fault": None, "scribble": False})
    return c


def stored(c):
    g = np.random.RandomState(c["dseed"])
    n, m = c["n"], len(c["tests"])
    out = {}
    for key, dt in zip(KEYS[:5], c["dtypes"]):
        x = g.uniform(-1000, 1000, size=(n, m)) if key != "cycle" else g.randint(0, 5, size=(n, m))
        out[key] = x.astype(DT[dt])
        if key != "cycle" and c.get("odd") and dt[0] == "f" and g.rand() < 0.6:
            # readings that were not taken (a gap in the record) or ran out of range
            if c["odd"] == "column":
                out[key][:, g.randint(m)] = np.nan
            else:
                out[key][g.rand(n, m) < 0.3] = {"nan": np.nan, "inf": np.inf}[c["odd"]]
    out["type"] = [t for t, _ in c["tests"]]
    out["control"] = [("strain", "stress")[k] for _, k in c["tests"]]
    return out


def bad_label(x, how):
    return {
        "typo": x[:-1] + "_",
        "case": x.capitalize(),
        "space": x + " ",
        "empty": "",
        "number": "0",
        "none": None,
        "swap": "strain" if x not in ("strain", "stress") else "tensile",
        "bytes": x.encode(),
    }[how]


class Fault(OSError):
    pass


class Values:
    def __init__(self, get):
        self.get = get

    @property
    def values(self):
        return self.get()


class Mapping:
    """xdata[key].values, every access one opportunity for a fault"""

    def __init__(self, data, fault, ctx):
        self.data, self.fault, self.ctx = data, fault, ctx
        self.n = 0

    def __getitem__(self, key):
        k, f = self.n, self.fault
        self.n += 1
        hit = f is not None and k == f[1]
        x = self.data[key]
        if hit and f[0] != "label":
            self.ctx.fault(f[0])
            if f[0] == "missing":
                raise KeyError(key)
        return Values(lambda: self.read(key, x, hit and f[0]))

    def read(self, key, x, f):
        if f == "read-error":
            raise Fault(5, "Input/output error (simulated)")
        if f == "interrupt":
            raise KeyboardInterrupt()
        x = x.copy()
        if f == "short-rows":
            return x[: max(len(x) - 1, 0)]
        if f == "one-row":
            return x[:1]
        if f == "short-tests":
            return x[..., :-1]
        if f == "long":
            return np.concatenate([x, x[-1:]])
        if f == "empty":
            return x[:0]
        return x


class File(io.RawIOBase):
    """read-only file; the k-th read fails"""

    def __init__(self, raw, at=None):
        self.b = io.BytesIO(raw)
        self.at = at
        self.n = 0

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, *a):
        return self.b.seek(*a)

    def tell(self):
        return self.b.tell()

    def readinto(self, buf):
        k = self.n
        self.n += 1
        if self.at is not None and k >= self.at:
            raise Fault(5, "Input/output error (simulated)")
        return self.b.readinto(buf)


def arrays(c, d):
    """labels as numpy arrays of the chosen kind"""
    out = {k: d[k] for k in KEYS[:5]}
    for k in KEYS[5:]:
        out[k] = np.array(d[k], dtype=object if c["labels"] == "object" or any(not isinstance(x, str) for x in d[k]) else None)
    return out


def dataset(c, d):
    import xarray as xr

    a = arrays(c, d)
    return xr.Dataset({k: (("step", "test"), v) if k in KEYS[:5] else (("test",), v) for k, v in a.items()})


def expect(d):
    ctl = np.array([{"strain": 0, "stress": 1}[x] for x in d["control"]])
    typ = np.array([zoo.TYPE_CODE[x] for x in d["type"]])
    f = {k: d[k].astype(np.float64) for k in KEYS[:4]}
    n, m = d["time"].shape
    data = np.zeros((3, n, m))
    res = np.zeros((n, m))
    for j in range(m):
        data[0, :, j], data[1, :, j] = f["time"][:, j], f["temperature"][:, j]
        data[2, :, j] = f["strain"][:, j] if ctl[j] == 0 else f["stress"][:, j]
        res[:, j] = f["stress"][:, j] if ctl[j] == 0 else f["strain"][:, j]
    return data, res, d["cycle"], typ, ctl


def execute(c, ctx):
    from pyoptmat import experiments

    base = stored(c)
    m = len(c["tests"])
    kept = []
    ctx.nontrivial = False
    for q, ld in enumerate(c["loads"]):
        d = {k: (v.copy() if isinstance(v, np.ndarray) else list(v)) for k, v in base.items()}
        if ld["perm"]:
            p = np.random.RandomState(ld["pseed"]).permutation(m)
            d = {k: (v[:, p] if isinstance(v, np.ndarray) else [v[j] for j in p]) for k, v in d.items()}
            ctx.fault("reordered")
        f = ld["fault"]
        must = False  # is an error required?
        if f and f[0] == "label":
            key = KEYS[5 + f[1] % 2]
            j = f[3] % m
            d[key][j] = bad_label(d[key][j], f[2])
            if c["store"] == "file" and not isinstance(d[key][j], str):
                d[key][j] = "?"
            must = True
            ctx.fault("label-" + f[2])
        want = None if must else expect(d)
        where = f"load {q} from {c['store']} fault {f}"
        world = env.World()
        watch = [env.Watch([(f"result {r}", t) for r, t in enumerate(k)]) for k, _ in kept]
        sums = None
        try:
            if c["store"] == "mapping":
                src = Mapping(arrays(c, d), f, ctx)
                ds = src.data
                sums = {k: v.tobytes() if v.dtype != object else repr(v.tolist()) for k, v in ds.items()}
                got = load(experiments, src, ld["poison"])
            elif c["store"] == "dataset":
                x = dataset(c, d)
                if f and f[0] == "missing":
                    x = x.drop_vars(KEYS[f[1]])
                    must = True
                    ctx.fault("missing")
                if f and f[0] == "interrupt":
                    got = with_interrupt(experiments, x, ld, f, ctx)
                else:
                    got = load(experiments, x, ld["poison"])
            else:
                got, must2 = from_file(c, d, ld, f, experiments, ctx)
                must = must or must2
        except CaseTimeout:
            raise
        except (Exception, KeyboardInterrupt) as e:
            if f is None and c["dtypes"][:4] == ["f8"] * 4:
                raise Violation("intact-load-fails", f"{where}: {type(e).__name__}: {str(e)[:160]}")
            ctx.event("failed", q, type(e).__name__)
            if f is None:
                # data of mixed types are refused loudly
                ctx.probe("mixed-types-refused")
            else:
                ctx.reach((c["store"], f[0], f[1], "failed"))
            got = None
        world.check("world-changed", where)
        for w in watch:
            w.check("earlier-result-changed", where)
        if got is None:
            continue
        if must:
            raise Violation("corrupt-load-accepted", f"{where}")
        if len(got) != 5:
            raise Violation("incomplete", where)
        for nm, a, b in zip(["data", "results", "cycles", "types", "control"], got, want):
            a = a.detach().numpy()
            if tuple(a.shape) != tuple(b.shape):
                raise Violation("wrong-shape", f"{where}: {nm} {a.shape}")
            if nm in ("cycles", "types", "control") and a.dtype.kind != "i":
                raise Violation("wrong-kind", f"{where}: {nm} {a.dtype}")
            if not np.array_equal(a.astype(np.float64), np.asarray(b).astype(np.float64), equal_nan=True):
                bad = np.argwhere(a.astype(np.float64) != np.asarray(b).astype(np.float64))[0]
                raise Violation("wrong-data", f"{where}: {nm} at {bad.tolist()}")
            ctx.tensor(nm, got[["data", "results", "cycles", "types", "control"].index(nm)])
        if sums is not None and sums != {k: v.tobytes() if v.dtype != object else repr(v.tolist()) for k, v in ds.items()}:
            raise Violation("storage-changed", where)
        if ld["scribble"]:
            # the caller edits what was returned
            for t in got:
                t.fill_(-77)
        else:
            kept.append((got, None))
        ctx.probe("loads-checked")
        ctx.nontrivial = ctx.nontrivial or m > 1
        ctx.reach((c["store"], tuple(sorted(set(map(tuple, c["tests"])))), f[0] if f else "", "loaded"))


def load(experiments, x, poison):
    if poison is None:
        return experiments.load_results(x)
    with env.Poison(poison):
        return experiments.load_results(x)


def with_interrupt(experiments, x, ld, f, ctx):
    t = env.LineTracer(1 + f[2] % 25, KeyboardInterrupt)
    with t:
        out = load(experiments, x, ld["poison"])
    ctx.probe("interrupt-too-late")
    return out


def from_file(c, d, ld, f, experiments, ctx):
    import xarray as xr

    x = dataset(c, d)
    if f and f[0] == "missing":
        x = x.drop_vars(KEYS[f[1]])
        ctx.fault("missing")
    raw = bytes(x.to_netcdf(engine="h5netcdf"))
    at = None
    if f and f[0] == "truncated":
        raw = raw[: len(raw) * (f[2] + 1) // 62]
        ctx.fault("truncated")
    if f and f[0] == "read-error":
        at = f[2]
    fh = File(raw, at)
    try:
        with xr.open_dataset(fh, engine="h5netcdf") as y:
            got = load(experiments, y, ld["poison"])
    finally:
        if at is not None and fh.n > at:
            ctx.fault("read-error")
    return got, bool(f) and (f[0] == "missing" or (f[0] == "truncated"))


def shrink(c):
    for ld in shrink_list(c["loads"], 1):
        yield dict(c, loads=ld)
    for i, ld in enumerate(c["loads"]):
        for k, v in (("fault", None), ("poison", None), ("perm", False), ("scribble", False)):
            if ld[k]:
                yield dict(c, loads=c["loads"][:i] + [dict(ld, **{k: v})] + c["loads"][i + 1 :])
    for ts in shrink_list(c["tests"], 1):
        yield dict(c, tests=ts)
    if c["n"] > 1:
        yield dict(c, n=max(1, c["n"] // 2))
    if c["dtypes"] != ["f8"] * 4 + ["i8"]:
        yield dict(c, dtypes=["f8"] * 4 + ["i8"])
    if c["store"] != "mapping":
        yield dict(c, store="mapping")
