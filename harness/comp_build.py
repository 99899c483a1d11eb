"""C16: building is deterministic and leaves everything else alone."""
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

TRACE_MODULE = "T_Build"


def models(prop, tier):
    return [dict(module="MC_Build", name="builds", edges=True, workers=1,
                 cfg="SPECIFICATION Spec\nCONSTANTS MaxLen = %d\nVIEW View\n"
                     "INVARIANT Inv\nPROPERTY Frame\nACTION_CONSTRAINT Emit\n"
                     % (5 if tier == "quick" else 7))]


def assumptions(prop):
    return ["grids, files and objects are compared by digests of their bytes",
            "diagnostic curves are read from grids that are not extended"]


def corruptors(prop):
    def find(s, *ops):
        return [r for r in s["recs"] if r["op"] in ops and r["res"] == "ok"]

    def grid(s):
        seen = set()
        for r in find(s, "build"):
            if r["key"] in seen:
                r["out"]["grid"] = "0"
                return s
            seen.add(r["key"])

    def caller(s):
        for r in find(s, "build"):
            r["post"]["caller"] = "0"
            return s

    def files(s):
        for r in find(s, "build", "load"):
            r["post"]["files"] = "0"
            return s

    def temp(s):
        for r in find(s, "build"):
            if not r["is"] and r["pre"]["temp"] != "none":
                r["post"]["temp"] = "none"
                return s

    def left(s):
        for r in find(s, "build"):
            if r["is"]:
                r["post"]["temp"] = "0"
                return s

    def curve(s):
        for r in s["recs"]:
            if r["op"] == "curve":
                r["R"], r["fy"] = r["R"][:r["m"]], r["fy"][:r["m"]]
                return s

    def point(s):
        for r in s["recs"]:
            if r["op"] == "curve" and r["gfy"][-1]:
                r["gfy"][-1] = [r["gfy"][-1][0], r["gfy"][-1][1] ^ 64] + \
                    r["gfy"][-1][2:]
                return s
    return [("grid", grid), ("caller", caller), ("files", files),
            ("temp", temp), ("left", left), ("curve", curve),
            ("point", point)]


def tree(top, skip=()):
    """Digest of all names and contents under top."""
    if not os.path.exists(top):
        return "none"
    h = hashlib.sha1()
    for folder, dirs, files in os.walk(top):
        if folder == top:
            dirs[:] = [d for d in dirs if d not in skip]
        dirs.sort()
        h.update(("D" + os.path.relpath(folder, top) + "\0").encode())
        for name in sorted(files):
            path = os.path.join(folder, name)
            h.update(("F" + os.path.relpath(path, top) + "\0").encode())
            with open(path, "rb") as f:
                h.update(f.read())
    return h.hexdigest()[:20]


def digest(*arrays):
    import numpy as np
    h = hashlib.sha1()
    for a in arrays:
        a = np.array(a, dtype=float)
        a = np.where(np.isnan(a), np.nan, a + 0.0)
        h.update(repr(a.shape).encode() + a.tobytes())
    return h.hexdigest()[:20]


def grid_digest(g):
    p = g.parameters
    return digest(*[f(False, False) for f in (
        g.get_disk_radius, g.get_inclination, g.get_tilt, g.get_fx_map,
        g.get_fy_map, g.get_diagnostic_map)], *p.get_vectors(), p.dx, p.dy,
        p.rf, p.rf_array, p.grid_shape, p.slice_shape, p.extendable,
        g.num_fxfy, g.get_combined_mask())


def diag_digest(g):
    import numpy as np
    from obs import call
    if g.diagnostics is None:
        return "none"
    parts = []
    ny, nx = g.parameters.slice_shape
    for y in range(ny):
        for x in range(nx):
            res, out = call(g.diagnostics.get_diagnostic, y, x)
            parts += [np.array([y, x]), *out] if res == "ok" else [
                np.array([-y, -x])]
    return digest(*parts)


ALONE = """
import json, os, sys, warnings
warnings.simplefilter("ignore")
args, n = json.loads(sys.argv[1])
import comp_build
from GridParameters import GridParameters
from Shallot import ShallotGrid
g = ShallotGrid(GridParameters(*args), n, logging_level=50,
                keep_diagnostics=True)
print("DIGEST", comp_build.grid_digest(g), comp_build.diag_digest(g))
"""


def process():
    """state of the whole process that other code depends on"""
    import numpy as np
    return hashlib.sha1(repr((
        random.getstate(), np.random.get_state()[1].tolist(),
        np.random.get_state()[2:], sorted(np.geterr().items()),
        sorted(np.get_printoptions().items(), key=str),
        sorted(os.environ.items()))).encode()).hexdigest()[:8]


def alone(args, n):
    """The digests of a grid that is the only one of its process."""
    with tempfile.TemporaryDirectory() as d:
        out = subprocess.run(
            [sys.executable, "-c", ALONE, json.dumps([list(args), n])],
            cwd=d, capture_output=True, text=True, timeout=300,
            env={**os.environ, "PYTHONPATH": os.pathsep.join(
                [p for p in sys.path if p])})
    for line in out.stdout.splitlines():
        if line.startswith("DIGEST "):
            return line.split()[1:]
    return ["raised", "raised"]


def drive(prop, seed, tier, edges):
    import logging
    import numpy as np
    from GridParameters import GridParameters
    from Shallot import ShallotGrid
    from obs import big, call
    logging.lastResort = None
    rng = random.Random(seed * 1000 + 16)
    quick = tier == "quick"
    TEMP = ".temp_shallot"
    ARGS = [((0, 1, 2, 0, 1, 2, 2, 2), 40),
            ((-1, 2, 3, 0.25, 1.5, 2, 3, 2), 40),
            ((0, 1.5, 2, 0, 2, 3, 2.5, 2), 30),
            ((-1, 1, 2, -1.5, 1, 3, 1.8, 2), 40),
            ((0.2, 1.2, 3, 0.5, 2, 2, 4, 3), 50),
            ((1.2, 2, 1, 0.5, 2, 3, 4, 4), 30),
            ((-1, 3, 2, -3, 1, 3, 2, 3), 60)]
    for _ in range(3 if quick else 12):
        lo, side = rng.uniform(-2, 1), rng.choice([-1, 1])
        ARGS.append(((lo, lo + rng.uniform(0.5, 2), rng.randrange(1, 4),
                      0.25 if side > 0 else -2, 2 if side > 0 else 0.25,
                      rng.randrange(1, 5), rng.uniform(1.5, 4),
                      rng.randrange(2, 5)), rng.randrange(25, 60)))
    KEYS = [(a, n + m) for a, n in ARGS for m in (0, 17)]
    with ThreadPoolExecutor(6) as pool:
        first = dict(zip(map(str, KEYS), pool.map(lambda k: alone(*k), KEYS)))
    top = os.getcwd()
    count = [0]

    def params(args):
        kind = rng.randrange(3)
        if kind == 1:
            args = tuple(np.float64(a) if k not in (2, 5, 7) else a
                         for k, a in enumerate(args))
        elif kind == 2:
            args = tuple(np.int64(a) if k in (2, 5, 7) else float(a)
                         for k, a in enumerate(args))
        return GridParameters(*args)

    class World:
        def __init__(self, what):
            self.what = what
            count[0] += 1
            self.dir = os.path.join(top, "w%d" % count[0])
            os.mkdir(self.dir)
            os.chdir(self.dir)
            with open("notes.txt", "w") as f:
                f.write("mine")
            a, b = rng.sample(ARGS, 2)
            if rng.random() < 0.4:      # differ in the resolution only
                b = (a[0], a[1] + 17)
            self.keys = dict(a=a, b=b)
            self.callers = {k: params(v[0]) for k, v in self.keys.items()}
            self.edited = set()
            self.built, self.saved = {}, {}
            self.recs = [dict(op="init", res="ok", temp="none")]
            for k in "ab":
                d = first[str(self.keys[k])]
                self.recs.append(dict(op="alone", key=k, res="ok" if
                                      d[0] != "raised" else d[0],
                                      out=dict(grid=d[0], diag=d[1])))

        def close(self):
            os.chdir(top)
            shutil.rmtree(self.dir)
            return dict(what=self.what, recs=self.recs, w=len(self.recs) + sum(
                len(r["R"]) // 10 for r in self.recs if r["op"] == "curve"))

        def state(self):
            return dict(
                caller=digest(*[x for k in sorted(self.callers)
                                for p in [self.callers[k]] for x in
                                (*p.get_vectors(), p.dx, p.dy, p.rf,
                                 p.rf_array, p.grid_shape, p.slice_shape,
                                 p.extendable)]) + process(),
                files=tree(".", (TEMP,)) + os.path.relpath(os.getcwd(), top),
                temp=tree(TEMP))

        def out(self, g):
            return dict(grid="none", diag="none") if g is None else dict(
                grid=grid_digest(g), diag=diag_digest(g))

        def build(self, k, kd, save, fresh):
            args, n = self.keys[k]
            p = params(args) if fresh or k in self.edited else self.callers[k]
            kw = dict(logging_level=rng.choice([50, 50, 40, 20, 10]))
            if kd or rng.random() < 0.3:
                kw["keep_diagnostics"] = kd
            if save or rng.random() < 0.3:
                kw["intermittent_saving"] = save
            pre = self.state()
            res, g = call(ShallotGrid, p, rng.choice([n, np.int64(n)]), **kw)
            self.recs.append(dict(
                op="build", res=res, key=k, kd=kd, **{"is": save},
                out=self.out(g), pre=pre, post=self.state()))
            if g is not None:
                if kd:
                    self.curves(g, k)
                self.built[k] = g

        def bad(self, save):
            p, n, kw = self.callers["a"], 20, {}
            k = rng.randrange(5)
            if k == 0:
                n = rng.choice([0, -3, 2.5, "20", None])
            elif k == 1:
                p = rng.choice([None, (0, 1, 2, 0, 1, 2, 2, 2)])
            elif k == 2:
                kw["logging_level"] = rng.choice([0, 9, 51, "INFO"])
            elif k == 3:
                kw["keep_diagnostics"] = rng.choice(["yes", 1, None])
            else:
                kw["intermittent_saving"] = rng.choice(["yes", 1, None])
            kw.setdefault("intermittent_saving", save)
            kw.setdefault("logging_level", 50)
            pre = self.state()
            res, _ = call(ShallotGrid, p, n, **kw)
            self.recs.append(dict(op="bad", res=res, pre=pre,
                                  post=self.state(),
                                  **{"is": kw["intermittent_saving"] is True}))

        def save(self, k):
            if k in self.built:
                name = "saved_" + k
                call(self.built[k].save, name)
                self.saved[k] = name

        def load(self, k):
            if k not in self.saved:
                return
            pre = self.state()
            res, g = call(ShallotGrid.load, self.saved[k], logging_level=50)
            self.recs.append(dict(op="load", res=res, key=k, out=self.out(g),
                                  pre=pre, post=self.state()))

        def leave(self):
            if not os.path.exists(TEMP):
                os.mkdir(TEMP)
                for name in ("y_value.npy", "num_fxfy.npy", "dx.npy"):
                    np.save(os.path.join(TEMP, name),
                            np.array([rng.random()]))

        def edit(self):
            """The caller changes the objects that were passed in."""
            for k, p in self.callers.items():
                call(p.extend_grid)
                for v in (p.dx, p.dy, p.rf, p.rf_array):
                    v += 1.0
                self.edited.add(k)

        def again(self):
            for k, g in self.built.items():
                self.recs.append(dict(op="again", res="ok", key=k,
                                      out=dict(grid=grid_digest(g))))

        def curves(self, g, which):
            R, fy = g.get_disk_radius(False, False), g.get_fy_map(False, False)
            ny, nx = g.parameters.slice_shape
            have, want = [], []
            rf = [float(v) for v in g.parameters.rf_array]
            if len(self.recs) > 1 and any(r["op"] == "curve"
                                          for r in self.recs):
                return
            if self.keys[which][0][0] == 0 and self.keys[which][0][3] == 0:
                return      # extended, its diagnostics are known to be off
            for y in range(ny):
                for x in range(nx):
                    if np.isfinite(R[y, x]).any():
                        want.append([y, x])
                    res, out = call(g.diagnostics.get_diagnostic, y, x)
                    if res != "ok":
                        continue
                    have.append([y, x])
            self.recs.append(dict(op="curves", res="ok", have=have, want=want))
            for y, x in rng.sample(have, min(2, len(have))):
                cfy, cR = [np.array(v) for v in
                           g.diagnostics.get_diagnostic(y, x)]
                m = int(np.nanargmin(cR))
                gfy = fy[y, x]
                hint = []
                for k, v in enumerate(rf):
                    c = len(rf) // 2
                    w = v * cR[m]
                    js = [j for j in range(m)] if k < c else \
                        [j for j in range(m, len(cR) - 1)]
                    js = [j for j in js if
                          min(cR[j], cR[j + 1]) <= w <= max(cR[j], cR[j + 1])]
                    best = min(js, key=lambda j: abs(
                        (gfy[k] - cfy[j]) * (cR[j + 1] - cR[j]) -
                        (w - cR[j]) * (cfy[j + 1] - cfy[j])) /
                        (abs(cR[j + 1] - cR[j]) + 1e-12), default=-1)
                    if k == c:
                        best = max(0, m - 1)
                    hint.append(best + 1)
                self.recs.append(dict(
                    op="curve", res="ok", m=m + 1, R=[big(v) for v in cR],
                    fy=[big(v) for v in cfy], rf=[big(v) for v in rf],
                    gfy=[big(v) for v in gfy], gR=[big(v) for v in R[y, x]],
                    hint=hint))

    items = [h for h in edges["builds"] if len(h) >= 4]
    for hist in rng.sample(items, min(60 if quick else 1000, len(items))):
        w = World("model history")
        for h in hist:
            if h["op"] == "build":
                w.build(h["key"], h["kd"], h["is"], h["fresh"])
            elif h["op"] == "bad":
                w.bad(h["is"])
            elif h["op"] in ("save", "load"):
                getattr(w, h["op"])(h["key"])
            else:
                getattr(w, h["op"])()
        w.again()
        yield w.close()
    for _ in range(40 if quick else 500):
        w = World("random history")
        for _ in range(rng.randrange(4, 9)):
            op = rng.choices(["build", "bad", "save", "load", "leave", "edit"],
                             [6, 1, 1, 2, 2, 1])[0]
            if op == "build":
                w.build(rng.choice("ab"), rng.random() < 0.5,
                        rng.random() < 0.4, rng.random() < 0.4)
            elif op == "bad":
                w.bad(rng.random() < 0.5)
            elif op in ("save", "load"):
                k = rng.choice("ab")
                if op == "load" or k not in w.saved:
                    getattr(w, op)(k)
            else:
                getattr(w, op)()
        w.again()
        yield w.close()
