"""C09: reading and masking a grid property."""
import random

TRACE_MODULE = "T_Property"
NONE = -2


def models(prop, tier):
    cfg = ("SPECIFICATION Spec\nCONSTANTS Cells = %d\nVals = {%s}\n"
           "VIEW View\nINVARIANT Inv\nPROPERTY Frame\n")
    sizes = [(1, "1, 2, 3"), (2, "1, 2")]
    if tier == "thorough":
        sizes.append((3, "1, 2"))
    return [dict(module="MC_Property", name="cells%d" % c, edges=True,
                 workers=3, cfg=cfg % (c, v)) for c, v in sizes]


def assumptions(prop):
    return ["data reach the specification as exact ranks"]


def corruptors(prop):
    def find(s, cond):
        return next((r for i, r in enumerate(s["recs"]) if i and cond(r)),
                    None)

    def destroyed(s):
        r = find(s, lambda r: r["post"]["m"] != r["post"]["u"])
        if r:
            r["post"]["u"] = r["post"]["m"]
            return s

    def unmasked(s):
        r = find(s, lambda r: r["post"]["m"] != r["post"]["u"])
        if r:
            r["post"]["m"] = r["post"]["u"]
            return s

    def accepted(s):
        r = find(s, lambda r: r["op"] == "mask" and r["res"] != "ok")
        if r:
            r["res"] = "ok"
            return s

    def limits(s):
        r = find(s, lambda r: r["op"] == "contrast" and r["res"] == "ok" and
                 r["post"]["lo"] >= 0)
        if r:
            r["post"]["hi"] += 1
            return s
    return [("destroyed", destroyed), ("unmasked", unmasked),
            ("accepted", accepted), ("limits", limits)]


def drive(prop, seed, tier, edges):
    import numpy as np
    import matplotlib.pyplot as plt
    from GridParameters import GridParameters
    from GridProperty import GridProperty
    from GridPropertyName import GridPropertyName
    from GridPropertyUnit import GridPropertyUnit
    from obs import Ranks, call
    rng = random.Random(seed * 1000 + 9)
    nprng = np.random.default_rng(seed * 1000 + 9)
    names = [n for n in GridPropertyName]
    gunits = [u for u in GridPropertyUnit]

    class World:
        def __init__(self, what, data, default_contrast=True):
            """data: nested lists/array of shape (ny, nx, 2 nr - 1)"""
            self.what, self.raw = what, []
            data = np.array(data, dtype="float64")
            ny, nx, n3 = data.shape
            assert n3 % 2 == 1
            self.shape = data.shape
            gp = GridParameters(-1, 1, nx, 0, 1, ny, 2, (n3 + 1) // 2)
            res, self.p = call(GridProperty, rng.choice(names),
                               rng.choice(gunits), np.copy(data), gp)
            self.returned = []
            if self.p is None:
                raise RuntimeError("property not built: " + res)
            self.log("new", res, data=data.reshape(-1).tolist())

        def log(self, op, res, wf=True, out=None, **kw):
            m = np.asarray(self.p.get_data(True), dtype="float64")
            u = np.asarray(self.p.get_data(False), dtype="float64")
            mask = self.p.mask
            if mask is None:
                mask = []
            else:
                mask = np.asarray(mask)
                mask = [bool(v) for v in mask.reshape(-1)]
            r = dict(op=op, res=res, wf=wf, data=[], mask=[], masked=False,
                     lo=None, hi=None)
            r.update(kw)
            r["out"] = [] if out is None else \
                np.asarray(out, dtype="float64").reshape(-1).tolist()
            r["post"] = dict(m=m.reshape(-1).tolist(),
                             u=u.reshape(-1).tolist(), mask=mask,
                             lo=self.p.vmin, hi=self.p.vmax)
            self.raw.append(r)

        def mask(self, bits):
            arr = np.array(bits, dtype="bool").reshape(self.shape)
            res, _ = call(self.p.set_mask, arr)
            self.log("mask", res, mask=[bool(b) for b in arr.reshape(-1)])

        def badmask(self, kind):
            n = int(np.prod(self.shape))
            if kind == "dtype":
                m = np.zeros(self.shape, dtype=rng.choice(
                    ["int64", "float64", "uint8"]))
            elif kind == "shape":
                s = list(self.shape)
                s[rng.randrange(3)] += 1
                m = np.ones(s, dtype="bool")
            elif kind == "dims":
                m = rng.choice([np.ones(n, dtype="bool"),
                                np.ones((1,) + self.shape, dtype="bool"),
                                np.array(True)])
            else:
                m = rng.choice([None, True, [[[True]]], "mask",
                                np.zeros(self.shape).tolist()])
            res, _ = call(self.p.set_mask, m)
            self.log("mask", res, wf=False)

        def read(self, masked, how=None):
            if how is None:
                how = rng.choice(["pos", "key"] + ["default"] * masked)
            if how == "pos":
                res, out = call(self.p.get_data, masked)
            elif how == "key":
                res, out = call(self.p.get_data, masked=masked)
            else:
                res, out = call(self.p.get_data)
            copy = np.copy(out) if out is not None else None
            if out is not None:
                self.returned.append(out)
            self.log("read", res, masked=masked, out=copy)

        def badread(self):
            res, _ = call(self.p.get_data, rng.choice([None, 1, 0, "True"]))
            self.log("read", res, wf=False)

        def scribble(self):
            if self.returned:
                a = rng.choice(self.returned)
                a[...] = rng.choice([np.nan, -77.0, 1e9])
                self.log("scribble", "ok")

        def contrast(self, lo, hi, cmap=None, num=None):
            kw = {}
            if lo is not None:
                kw["vmin"] = lo
            if hi is not None:
                kw["vmax"] = hi
            if cmap is not None:
                kw["color_map"] = cmap
            if num is not None:
                kw["num_colors"] = num
            res, _ = call(self.p.set_contrast_parameters, **kw)
            self.log("contrast", res, lo=lo, hi=hi)

        def badcontrast(self):
            kw = rng.choice([dict(vmin="0"), dict(vmax=[1.0]),
                             dict(color_map=3), dict(num_colors=1),
                             dict(num_colors=2.5), dict(num_colors="5"),
                             dict(num_colors=0), dict(color_map=["v"])])
            if rng.random() < 0.6:      # with valid limits
                kw.setdefault("vmin", rng.choice([-5.0, 0.5, 3]))
                kw.setdefault("vmax", rng.choice([7.0, 100]))
            res, _ = call(self.p.set_contrast_parameters, **kw)
            self.log("contrast", res, wf=False)

        def plot(self):
            axis = rng.choice([a for a in range(3) if self.shape[a] > 1]
                              or [None])
            if axis is None:
                return
            fig, ax = plt.subplots(figsize=(1, 1), dpi=20)
            if rng.random() < 0.7:
                res, _ = call(self.p.plot_slice, axis,
                              rng.randrange(self.shape[axis]), ax,
                              rng.random() < 0.5)
            else:
                res, _ = call(self.p.plot_cube, axis,
                              None, rng.random() < 0.5)
            plt.close("all")
            self.log("plot", res)

        def session(self):
            ranks = Ranks()
            lists = []
            for r in self.raw:
                lists += r["data"] + r["post"]["m"] + r["post"]["u"] + r["out"]
                lists += [v for v in (r["lo"], r["hi"], r["post"]["lo"],
                                      r["post"]["hi"]) if v is not None]
            for v in lists:
                ranks.add(v)
            ranks.freeze()

            def opt(v):
                return NONE if v is None else ranks.of(v)
            recs = []
            for r in self.raw:
                r["data"] = [ranks.of(v) for v in r["data"]]
                r["out"] = [ranks.of(v) for v in r["out"]]
                r["lo"], r["hi"] = opt(r["lo"]), opt(r["hi"])
                p = r["post"]
                p["m"] = [ranks.of(v) for v in p["m"]]
                p["u"] = [ranks.of(v) for v in p["u"]]
                p["lo"], p["hi"] = opt(p["lo"]), opt(p["hi"])
                recs.append(r)
            return dict(what=self.what, recs=recs)

    values = {-1: float("nan"), 1: -2.5, 2: 0.125, 3: 7.0, NONE: None}
    for name in sorted(edges):
        items = edges[name]
        quota = 400 if tier == "quick" else 4000
        for e in (items if len(items) <= quota else rng.sample(items, quota)):
            s, a = e["pre"], e["a"]
            n = len(s["data"])
            # the cells lie along the rf axis or along x
            vals = [values[v] for v in s["data"]]
            if n == 3 or (n == 1):
                data = np.array(vals).reshape(1, 1, n)
            else:
                data = np.array(vals).reshape(rng.choice([(n, 1, 1),
                                                          (1, n, 1)]))
            w = World("model transition " + e["op"], data)
            if s["mask"]:
                w.mask(s["mask"])
            if a["op"] == "mask":
                w.mask(a["mask"])
            elif a["op"] == "badmask":
                w.badmask(a["kind"])
            elif a["op"] == "read":
                w.read(a["masked"])
                w.scribble()
            elif a["op"] == "contrast":
                w.contrast(values[a["lo"]], values[a["hi"]])
            yield w.session()
    for p in (1, 0.97, 0.5):        # large properties, large masks
        data = np.round(nprng.normal(size=(19, 22, 15)), 2)
        w = World("large", data)
        w.mask([rng.random() < p for _ in range(data.size)])
        w.read(True)
        w.scribble()
        w.mask([rng.random() < 1 - p / 2 for _ in range(data.size)])
        yield w.session()
    for n in range(150 if tier == "quick" else 2000):
        shape = (rng.randrange(1, 4), rng.randrange(1, 4),
                 rng.choice([1, 3, 5]))
        data = nprng.normal(size=shape) * 10 ** rng.uniform(-3, 3)
        data = np.round(data, rng.choice([1, 12]))
        if rng.random() < 0.7:
            data[nprng.random(shape) < rng.choice([0.1, 0.5, 0.9])] = np.nan
        if n % 20 == 19:
            data[...] = np.nan
        infinite = n % 20 in (7, 13)
        if infinite:
            where = nprng.random(shape) < rng.choice([0.2, 1.1])
            data[where] = nprng.choice([np.inf, -np.inf, np.inf], where.sum())
            if rng.random() < 0.3:
                data[where] = np.inf
        w = World("random history", data)
        size = int(np.prod(shape))
        for _ in range(rng.randrange(5, 25)):
            op = rng.choice(["mask"] * 3 + ["read"] * 4 + ["scribble"] * 2 +
                            ["badmask", "badread", "contrast", "badcontrast"])
            if op == "mask":
                p = rng.choice([0, 0.2, 0.5, 1])
                w.mask([rng.random() < p for _ in range(size)])
            elif op == "read":
                w.read(rng.random() < 0.6)
            elif op == "badmask":
                w.badmask(rng.choice(["dtype", "shape", "dims", "kind"]))
            elif op == "contrast":
                w.contrast(rng.choice([None, None, 0, -1.5]),
                           rng.choice([None, None, 3, np.float64(2.25)]),
                           rng.choice([None, "twilight"]),
                           rng.choice([None, 2, 50]))
            else:
                getattr(w, op)()
        if n % 6 == 0 and not infinite:
            w.plot()
            w.read(True)
        yield w.session()
