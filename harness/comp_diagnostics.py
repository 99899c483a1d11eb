"""C08: diagnostics of the interpolation."""
import os
import random
import shutil
import tempfile

TRACE_MODULE = "T_Diagnostics"


def models(prop, tier):
    cfg = ("SPECIFICATION Spec\nCONSTANTS NY = %d\nNX = %d\nVals = {%s}\n"
           "INVARIANT Inv\nPROPERTY Frame\n")
    sizes = [(2, 3, "1"), (2, 2, "1, 2"), (1, 3, "1, 2"), (1, 1, "1, 2")]
    if tier == "thorough":
        sizes += [(3, 3, "1"), (2, 3, "1, 2")]
    return [dict(module="MC_Diagnostics", name="%dx%d_%d" % (y, x, len(v)),
                 edges=True, workers=2, cfg=cfg % (y, x, v))
            for y, x, v in sizes]


def assumptions(prop):
    return ["a pair of arrays is recognised by its exact content (NaN "
            "included)"]


def corruptors(prop):
    def stale(s):
        for i, r in enumerate(s["recs"]):
            if r["op"] == "store" and r["res"] == "ok" and \
                    r["table"] != s["recs"][i - 1]["table"]:
                r["table"] = s["recs"][i - 1]["table"]
                return s

    def accepted(s):
        for r in s["recs"]:
            if r["op"] == "store" and r["res"] != "ok":
                r["res"] = "ok"
                return s

    def extended(s):
        for r in s["recs"][1:]:
            if r["op"] == "extend" and any(any(x) for x in r["table"]):
                r["table"][1][1] = 7
                return s

    def lost(s):
        for r in s["recs"]:
            if r["op"] == "reload" and any(any(x) for x in r["table"]):
                r["table"] = [[0] * len(x) for x in r["table"]]
                return s
    return [("stale", stale), ("accepted", accepted), ("extended", extended),
            ("lost on reload", lost)]


def drive(prop, seed, tier, edges):
    import numpy as np
    from GridParameters import GridParameters
    from GridDiagnostics import GridDiagnostics
    from obs import call
    rng = random.Random(seed * 1000 + 8)
    nprng = np.random.default_rng(seed * 1000 + 8)
    tmp = tempfile.mkdtemp(dir=".")
    arrays = {}

    def pair(v):
        """the pair with the number v"""
        if v not in arrays:
            n = rng.choice([0, 1, 2, 5, 40])
            a = nprng.normal(size=n + 1)
            b = nprng.normal(size=n + 1)
            if rng.random() < 0.5:
                b[rng.randrange(n + 1)] = np.nan
            # unusual, but different in their length
            kind = rng.randrange(8)
            if kind == 0:
                a, b = np.zeros(100 + v), np.zeros(100 + v)
            elif kind == 1:
                a, b = np.full(200 + v, np.nan), np.full(200 + v, np.nan)
            elif kind == 2:
                a, b = a * 1e300, np.full(n + 1, rng.choice(
                    [np.inf, -np.inf, 5e-324, -0.0]))
            elif kind == 3 and v == 7:
                a, b = np.zeros(0), np.zeros(0)
            arrays[v] = (a, b, a.tobytes(), b.tobytes())
        return arrays[v]

    def known(value):
        try:
            a, b = value
            a, b = np.asarray(a), np.asarray(b)
            if a.dtype != "float64" or b.dtype != "float64" or a.ndim != 1 \
                    or b.ndim != 1:
                return -1
        except Exception:
            return -1
        for v, (_, _, x, y) in arrays.items():
            if a.tobytes() == x and b.tobytes() == y:
                return v
        return -1

    class World:
        def __init__(self, what, ny, nx):
            self.what, self.ny, self.nx = what, ny, nx
            self.recs = []
            fresh = GridParameters(0, 1, nx, rng.choice([0, -1]), 2, ny, 3, 2)
            res, self.gd = call(GridDiagnostics, fresh)
            self.log("new", res, ny, nx)

        def log(self, op, res, y=0, x=0, v=0, wf=True, argsame=True):
            table = []
            for j in range(-1, 2 * self.ny + 1):
                row = []
                for i in range(-1, 2 * self.nx + 1):
                    kind = rng.choice([int, int, np.int64, np.int32])
                    out, value = call(self.gd.get_diagnostic, kind(j), kind(i))
                    row.append(known(value) if out == "ok" else 0)
                table.append(row)
            self.recs.append(dict(op=op, res=res, y=y, x=x, v=v, wf=wf,
                                  argsame=argsame, table=table))

        def store(self, y, x, v, bad=None):
            a, b, abytes, bbytes = pair(v)
            yy, xx = y, x
            kind = rng.choice([int, int, np.int64])
            yy, xx = kind(y), kind(x)
            if bad == "dtype":
                a = np.zeros(3, dtype=rng.choice(["int64", "float32"]))
                b = np.zeros(3)
            elif bad == "dtype2":
                a, b = np.zeros(3), np.zeros(3, dtype="complex128")
            elif bad == "dims":
                a, b = rng.choice([(a[:, None], b[:, None]), (a, b[None, :]),
                                   (np.array(1.0), np.array(1.0))])
            elif bad == "shape":
                a = np.concatenate((a, [1.0]))
            elif bad == "kind":
                a, b = rng.choice([(list(a), b), (a, None), (3, 4)])
            elif bad == "point":
                yy, xx = rng.choice([(float(y), x), (y, "0"), (None, x),
                                     (y + 0.5, x), (y, float("nan"))])
            res, _ = call(self.gd.save_diagnostic, yy, xx, a, b)
            same = pair(v)[0].tobytes() == abytes and \
                pair(v)[1].tobytes() == bbytes
            self.log("store", res, y, x, v, wf=bad is None, argsame=same)

        def extend(self):
            res, _ = call(self.gd.extend)
            self.log("extend", res)

        def reload(self, folder=None):
            own = folder is None
            folder = folder or os.path.join(tmp, "d")
            res, _ = call(self.gd.save, folder)
            if res == "ok":
                res, new = call(GridDiagnostics.load, folder)
                if res == "ok":
                    old, self.gd = self.gd, new
                    if rng.random() < 0.3 and self.ny:
                        # the old object lives on, independently
                        call(old.save_diagnostic, 0, 0, *pair(9)[:2])
                        call(old.extend)
            if own:
                shutil.rmtree(folder, ignore_errors=True)
            self.log("reload", res)

        def setup(self, s):
            for y in range(self.ny):
                for x in range(self.nx):
                    if s["map"][y][x]:
                        self.store(y, x, s["map"][y][x])
            if s["ext"]:
                self.extend()

        def session(self):
            return dict(what=self.what, recs=self.recs,
                        w=1 + sum(len(r["table"]) * len(r["table"][0]) // 8
                                  for r in self.recs))
    quota = 700 if tier == "quick" else 6000
    for name in sorted(edges):
        ny, nx = (int(v) for v in name.split("_")[0].split("x"))
        items = edges[name]
        groups = {}
        for e in items:
            groups.setdefault((e["op"], e["pre"]["ext"]), []).append(e)
        for g in sorted(groups):
            part = groups[g]
            n = quota // 12 if g[0] == "store" else quota // 20
            for e in (part if len(part) <= n else rng.sample(part, n)):
                w = World("model transition %s %s" % (name, e["op"]), ny, nx)
                w.setup(e["pre"])
                if e["op"] == "store":
                    w.store(e["y"], e["x"], e["v"])
                elif e["op"] == "extend":
                    w.extend()
                else:
                    w.reload()
                yield w.session()
    for ny, nx in [(102, 12), (1, 130), (12, 102)]:     # three digits
        w = World("large", ny, nx)
        y, x = ny - 1, nx - 1
        w.store(y, x, 1)
        w.store(max(y - 1, 0), x - 1, 2)
        w.store(ny // 10, nx // 10, 3)
        w.reload()
        w.store(y, 10 if nx > 10 else 0, 4)
        w.extend()
        yield w.session()
    w = World("three digits twice", 104, 104)
    w.store(103, 103, 1)
    w.store(*rng.choice([(103, 102), (102, 103)]), 2)
    w.reload()
    yield w.session()
    for n in range(50 if tier == "quick" else 700):
        ny, nx = rng.choice([(1, 1), (1, 4), (5, 2), (3, 3), (4, 6), (2, 11),
                             (12, 3)])
        w = World("random history", ny, nx)
        shared = os.path.join(tmp, "shared%d" % (n % 3))
        for k in range(rng.randrange(4, 24)):
            op = rng.random()
            y, x = rng.randrange(ny), rng.randrange(nx)
            if op < 0.55:
                w.store(y, x, rng.randrange(1, 30))
            elif op < 0.7:
                y = rng.choice([y, -1, ny, ny + 1, -ny, 2 * ny])
                x = rng.choice([x, -1, nx, nx + 1, -nx])
                w.store(y, x, rng.randrange(1, 30))
            elif op < 0.85:
                w.store(y, x, rng.randrange(1, 30), rng.choice(
                    ["dtype", "dtype2", "dims", "shape", "kind", "point"]))
            elif op < 0.93:
                w.reload(rng.choice([None, shared]))
            elif k > 5:
                w.extend()
        yield w.session()
    shutil.rmtree(tmp, ignore_errors=True)
