"""C11: saving and loading grid parameters, properties and gradients."""
import os
import random
import shutil
import tempfile

TRACE_MODULE = "T_Persist"


def models(prop, tier):
    return [dict(module="MC_Persist", name="folder", edges=True, workers=1,
                 cfg="SPECIFICATION Spec\nCONSTANT MaxLen = %d\n"
                 "INVARIANT Inv\nACTION_CONSTRAINT Emit\n" %
                 (3 if tier == "quick" else 4))]


def assumptions(prop):
    return ["which files an object needs is found by saving it, and its "
            "unmasked and unmeasured twin, to a fresh folder",
            "objects of other parameters than those saved to the folder last "
            "are not judged"]


def corruptors(prop):
    def undetected(s):
        for p, r in zip(s["recs"], s["recs"][1:]):
            if p["op"] == "hurt" and p["kind"] == "need" and \
                    r["op"] == "load" and r["slot"] == p["slot"] and \
                    r["f"] == p["f"]:
                r["res"] = "ok"
                return s

    def other(s):
        for p, r in zip(s["recs"], s["recs"][1:]):
            if p["op"] == "hurt" and p["kind"] == "torn" and \
                    r["op"] == "load" and r["slot"] == p["slot"] and \
                    r["f"] == p["f"]:
                r["res"] = "ValueError"
                return s

    def changed(field):
        def fn(s):
            # the load right after the save of the same slot
            for p, r in zip(s["recs"], s["recs"][1:]):
                if p["op"] == "save" and r["op"] == "load" and \
                        r["res"] == "ok" and r["slot"] == p["slot"] and \
                        (field != "mask" or r["obj"]["mask"]) and \
                        (field != "pid" or r["slot"] != "d") and \
                        p["f"] == r["f"] and (field != "meas" or
                                              r["obj"]["meas"]):
                    r["obj"][field] = 0
                    return s
        return fn
    def same_place(s):
        # two gradients at different positions in one folder
        seen = {}
        for r in s["recs"]:
            if r["op"] == "save" and r["slot"] == "g":
                if r["f"] in seen and s["what"].startswith("model"):
                    r["at"] += 300
                    return s
                seen[r["f"]] = 1

    return [("same place", same_place), ("undetected", undetected), ("other error", other)] + \
        [("changed " + f, changed(f)) for f in ("pid", "mask", "meas")]


def drive(prop, seed, tier, edges):
    import numpy as np
    from GridParameters import GridParameters
    from GridDiagnostics import GridDiagnostics
    from GridProperty import GridProperty, GridGradient
    from GridPropertyName import GridPropertyName as Name
    from GridPropertyUnit import GridPropertyUnit as Unit
    from obs import call
    rng = random.Random(seed * 1000 + 11)
    nprng = np.random.default_rng(seed * 1000 + 11)
    tmp = tempfile.mkdtemp(dir=".")
    ids = {}

    def ident(kind, key):
        """a small number per content"""
        table = ids.setdefault(kind, {})
        return table.setdefault(key, len(table) + 1)

    def arr(a):
        a = np.asarray(a)
        return (a.shape, str(a.dtype), a.tobytes())

    def pid(gp):
        return ident("params", (arr(gp.dx), arr(gp.dy), arr(gp.rf),
                                arr(gp.rf_array), tuple(gp.grid_shape),
                                tuple(gp.slice_shape), bool(gp.extendable)))

    def describe(x):
        """the identities of an object"""
        d = dict(pid=0, data=0, mask=0, pos=0, meas=0)
        if isinstance(x, GridParameters):
            d["pid"] = pid(x)
            return d
        if isinstance(x, GridDiagnostics):
            d["data"] = ident("diagnostics", contents(x))
            return d
        d["pid"] = pid(x.grid_parameters)
        d["data"] = ident("data", (x.name.name, x.unit.name,
                                   type(x).__name__,
                                   arr(x.get_data(False))))
        if x.mask is not None:
            d["mask"] = ident("mask", arr(x.mask))
        if isinstance(x, GridGradient):
            d["pos"] = ident("pos", float(x.position))
            if x.measured_gradient is not None:
                d["meas"] = ident("meas", tuple(float(v) for v in (
                    x.measured_gradient, x.measured_error, x.orbital_scale,
                    x.transmission_change)))
        return d

    def contents(gd):
        """the readable curves of diagnostics"""
        out = []
        for y in range(-1, 5):
            for x in range(-1, 8):
                res, pair = call(gd.get_diagnostic, y, x)
                if res == "ok":
                    out.append((y, x, arr(pair[0]), arr(pair[1])))
        return tuple(out)

    def random_params():
        nx, ny, nr = rng.randrange(1, 4), rng.randrange(1, 4), \
            rng.randrange(1, 4)
        if rng.random() < 0.08:
            nx, ny, nr = rng.randrange(9, 30), rng.randrange(9, 30), \
                rng.randrange(3, 9)
        lo = rng.choice([0, 0, -1, 0.25])
        res, gp = call(GridParameters, lo, lo + rng.choice([1, 2, 0.7]), nx,
                       rng.choice([0, lo]), 3.5, ny, rng.choice([2, 3.3, 1]),
                       nr)
        if rng.random() < 0.25:
            call(gp.extend_grid)
        return gp

    def mask_for(gp, m):
        shape = gp.grid_shape
        r = np.random.default_rng(m)
        a = r.random(shape) < 0.5
        if m % 3 == 0:
            a = np.zeros(shape, dtype=bool)
        return a

    class World:
        def __init__(self, what):
            self.what = what
            self.recs = [self.rec("reset")]
            self.dir = tempfile.mkdtemp(dir=tmp)
            self.params = {}
            self.slots = {"a": (Name.DISK_RADIUS, Unit.ECLIPSE_DURATION),
                          "b": rng.choice([(Name.TILT, Unit.DEGREE),
                                           (Name.DISK_RADIUS, Unit.NONE),
                                           (Name.FX_MAP, Unit.NONE)])}
            self.files = {}

        def rec(self, op, res="ok", f="", slot="", obj=None, kind="",
                file="", at=0):
            return dict(op=op, res=res, f=f, slot=slot, kind=kind,
                        file=file, at=at,
                        obj=obj or dict(pid=0, data=0, mask=0, pos=0, meas=0))

        def gp(self, k):
            if k not in self.params:
                self.params[k] = random_params()
            return self.params[k]

        def build(self, slot, gp, datum, mask, pos=0, meas=0):
            if slot == "params":
                return gp
            if slot == "d":
                r = np.random.default_rng(datum)
                gp = GridParameters(0, 1, 2 + datum % 2, 0, 1, 2, 2, 2)
                x = GridDiagnostics(gp)
                for cell in range(datum + 1):
                    n = int(r.integers(1, 9))
                    call(x.save_diagnostic, cell % 2, cell // 2 % 2,
                         r.random(n), 1 + r.random(n))
                if datum % 3 == 2:
                    call(x.extend)
                return x
            shape = gp.grid_shape
            r = np.random.default_rng(datum)
            data = r.random(shape)
            if datum % 2:
                data[r.random(shape) < 0.3] = np.nan
            if datum % 3 == 2:      # unusual, but legitimate values
                data[r.random(shape) < 0.3] = r.choice(
                    [0.0, -0.0, 1e300, -1e-300, 5e-324, 1 + 2 ** -52,
                     2.0 ** 53 + 2, -np.inf, np.inf])
            if datum % 7 == 6:
                data[...] = r.choice([np.nan, 0.0, -1.0])
            if slot == "g":
                x = GridGradient(data, gp, [0.0, 0.25, -0.4321987, 1 / 3,
                                            -0.0, -0.25, 0.4321987][pos % 7])
                if meas:
                    x.determine_mask([0.0, 0.5, 0.123][meas % 3], 1.0,
                                     [None, 0.9][meas % 2],
                                     [None, 0.25][meas % 2])
                    if meas % 4 == 3:
                        x.set_mask(mask_for(gp, meas))
                elif mask:
                    x.set_mask(mask_for(gp, mask))
                return x
            x = GridProperty(*self.slots[slot], data, gp)
            if mask:
                x.set_mask(mask_for(gp, mask))
            return x

        def write(self, x, slot, folder):
            """saves; returns (outcome, folder to load from)"""
            if slot == "g":
                if not os.path.exists(folder):
                    os.mkdir(folder)
                before = set(os.listdir(folder))
                res, _ = call(x.save_gradient, folder)
                subs = [d for d in os.listdir(folder)
                        if os.path.isdir(os.path.join(folder, d))]
                new = [d for d in subs if d not in before]
                if len(new) == 1:
                    return res, new[0]
                return res, self.subfolder(x)
            res, _ = call(x.save, folder)
            return res, ""

        def subfolder(self, x):
            fresh = tempfile.mkdtemp(dir=tmp)
            call(x.save_gradient, fresh)
            subs = [d for d in os.listdir(fresh)
                    if os.path.isdir(os.path.join(fresh, d))]
            shutil.rmtree(fresh)
            return subs[0] if subs else ""

        def save(self, slot, x, f="f"):
            # the files that this object needs, and those of a plain twin
            need, every = self.needs(slot, x)
            res, sub = self.write(x, slot, os.path.join(self.dir, f))
            obj = describe(x)
            if slot == "g":
                self.recs.append(self.rec("save", res, f, "params",
                                          dict(obj, data=0, mask=0, pos=0,
                                               meas=0)))
                g = f + "/" + sub
            else:
                g = f
            at = 0
            if slot == "g":
                at = round(float(x.position) * 1e6)
            self.recs.append(self.rec("save", res, g, slot, obj, at=at))
            self.files[(g, slot)] = (need, every)
            return g

        def needs(self, slot, x):
            def listing(y):
                fresh = os.path.join(tempfile.mkdtemp(dir=tmp), "d")
                _, sub = self.write(y, slot, fresh)
                d = os.path.join(fresh, sub)
                out = set()
                if os.path.isdir(d):
                    out = {n for n in os.listdir(d)
                           if os.path.isfile(os.path.join(d, n))}
                shutil.rmtree(os.path.dirname(fresh))
                return out
            every = listing(x)
            if slot == "params" or slot == "d":
                return every, every
            if slot == "g":
                twin = GridGradient(x.get_data(False), x.grid_parameters,
                                    x.position)
            else:
                twin = GridProperty(x.name, x.unit, x.get_data(False),
                                    x.grid_parameters)
            return listing(twin), every

        def hurt(self, g, slot, kind):
            if (g, slot) not in self.files:
                return
            need, every = self.files[(g, slot)]
            d = os.path.join(self.dir, g)
            shared = set()
            if slot not in ("params", "d"):
                gp = self.gp(1)
                shared = self.needs("params", gp)[0]
            pool = need if kind == "need" else every - need
            own = "params" if slot == "params" else slot
            pool = sorted(n for n in pool
                          if os.path.exists(os.path.join(d, n)))
            if kind == "need" and slot != "params" and \
                    rng.random() < 0.7:
                pool = [n for n in pool if n not in shared] or pool
            if not pool:
                return
            n = rng.choice(pool)
            path = os.path.join(d, n)
            size = os.path.getsize(path)
            if kind == "gone" or (kind == "need" and rng.random() < 0.4 and
                                  n != "extended.npy"):  # optional
                os.remove(path)
            else:
                if size == 0:
                    return
                cut = rng.choice([0, 1, 9, size // 2, size - 1,
                                  rng.randrange(size)])
                with open(path, "r+b") as fh:
                    fh.truncate(min(cut, size - 1))
            if n in shared:
                own = "params"
            self.recs.append(self.rec("hurt", "ok", g, own, kind=kind,
                                      file=n))

        def load(self, g, slot):
            d = os.path.join(self.dir, g)
            if slot == "params":
                res, x = call(GridParameters.load, d)
            elif slot == "g":
                res, x = call(GridGradient.load, d)
            elif slot == "d":
                res, x = call(GridDiagnostics.load, d)
            else:
                res, x = call(GridProperty.load, d, *self.slots[slot])
            self.recs.append(self.rec("load", res, g, slot,
                                      describe(x) if x is not None else None))
            return x

        def session(self):
            shutil.rmtree(self.dir, ignore_errors=True)
            return dict(what=self.what, recs=self.recs)

    items = edges["folder"]
    quota = 700 if tier == "quick" else 8000
    for hist in (items if len(items) <= quota else rng.sample(items, quota)):
        w = World("model history")
        where = {}
        for h in hist:
            slot = h["slot"]
            if h["op"] == "save":
                o = h["obj"]
                x = w.build(slot, w.gp(o["pid"]), o["data"], o["mask"],
                            o["pos"], o["meas"])
                where[slot] = w.save(slot, x)
            elif slot in where or slot == "params":
                w.hurt(where.get(slot, "f"), slot, h["kind"])
            if slot in where and (h["op"] == "hurt" or
                                      rng.random() < 0.4):
                w.load(where[slot], slot)
        for slot in ("params", "a", "b", "g", "d"):
            if slot not in "gd" or slot in where:
                w.load(where.get(slot, "f"), slot)
        yield w.session()
    for n in range(80 if tier == "quick" else 1200):
        w = World("random history")
        objects, known = [], set()
        for _ in range(rng.randrange(4, 16)):
            op = rng.random()
            f = rng.choice(["f", "f", "f2"])
            slot = rng.choice(["a", "a", "b", "g", "g", "params", "d"])
            if op < 0.5:
                if objects and rng.random() < 0.3:
                    slot, x = rng.choice(objects)
                else:
                    x = w.build(slot, w.gp(rng.choice([1, 1, 2])),
                                rng.randrange(8), rng.choice([0, 0, 1, 2, 3]),
                                rng.randrange(7), rng.choice([0, 1, 2, 3]))
                    objects.append((slot, x))
                g = w.save(slot, x, f)
                known.add((g, slot))
                if rng.random() < 0.5:
                    y = w.load(g, slot)
                    if y is not None and rng.random() < 0.5:
                        objects.append((slot, y))
            elif op < 0.7 and known:
                g, slot = rng.choice(sorted(known))
                w.hurt(g, slot, rng.choice(["need", "need", "torn", "gone"]))
            elif known:
                g, slot = rng.choice(sorted(known))
                w.load(g, slot)
            else:
                w.load(f, slot)
        for g, slot in sorted(known):
            w.load(g, slot)
        yield w.session()
    shutil.rmtree(tmp, ignore_errors=True)
