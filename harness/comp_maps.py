"""C30: names, units, limits and colours of the maps of a grid."""
import os
import random
import shutil

from comp_build import digest

TRACE_MODULE = "T_Maps"


def models(prop, tier):
    n = 5 if tier == "quick" else 6
    return [dict(module="MC_Maps", name="lives", edges=True, workers=2,
                 cfg="SPECIFICATION Spec\nCONSTANTS MaxLen = %d\nVIEW View\n"
                     "INVARIANT Inv\nPROPERTY KeptThm\n"
                     "ACTION_CONSTRAINT Emit\n" % n)]


def assumptions(prop):
    return ["the extremes of the data are taken with numpy's nanmin and "
            "nanmax", "the unit of the interpolation deviation is not "
            "specified"]


def corruptors(prop):
    def last(s, kind):
        for r in reversed(s["recs"]):
            for m in r["maps"]:
                if m["kind"] == kind:
                    return r, m
        return None, None

    def name(s):
        s["recs"][0]["maps"][1]["name"] = "Tilt"
        return s

    def unit(s):
        s["recs"][0]["maps"][0]["unit"] = "Degree"
        return s

    def limits(s):
        s["recs"][0]["maps"][3]["hi"] += 1
        return s

    def colours(s):
        s["recs"][0]["maps"][2]["cyclic"] = False
        return s

    def kept(s):
        if len(s["recs"]) > 1 and s["recs"][1]["op"] not in (
                "load", "contrast", "resume", "build"):
            s["recs"][1]["maps"][4]["map"] = "prism"
            return s

    def axes(s):
        s["recs"][0]["maps"][5]["axes"] = "0"
        return s

    def drawn(s):
        for r in s["recs"]:
            if r["drawn"]:
                r["drawn"][0]["contrast"]["n"] += 1
                return s

    def order(s):
        for r in s["recs"]:
            if len(set(r["sorted"])) > 1:
                r["sorted"].reverse()
                return s
    return [("name", name), ("unit", unit), ("limits", limits),
            ("colours", colours), ("kept", kept), ("axes", axes),
            ("drawn", drawn), ("order", order)]


def drive(prop, seed, tier, edges):
    import matplotlib.pyplot as plt
    import numpy as np
    from GridParameters import GridParameters
    from Shallot import ShallotGrid
    from obs import Ranks, call
    rng = random.Random(seed * 1000 + 30)
    quick = tier == "quick"
    top = os.getcwd()
    count = [0]
    GRIDS = [((0, 1, 2, 0, 1, 2, 2, 2), 40), ((0, 1.5, 3, 0, 2, 2, 2.5, 3), 40),
             ((-1, 2, 3, 0.25, 1.5, 2, 3, 2), 40),
             ((0, 1.5, 2, 0, 2, 3, 2.5, 2), 30),
             ((-1, 1, 2, -1.5, 1, 3, 1.8, 2), 40),
             ((0.2, 1.2, 3, 0.5, 2, 2, 4, 3), 50), ((0, 1, 2, 0.5, 1, 2, 3, 2), 40),
             ((1.2, 2, 1, 0.5, 2, 3, 4, 4), 30)]
    PARTS = [("radius", "disk_radius"), ("inclination", "inclination"),
             ("tilt", "tilt"), ("fx", "fx_map"), ("fy", "fy_map"),
             ("deviation", "diagnostic_map")]

    class World:
        def __init__(self, what, resume=False):
            self.what, self.raw = what, []
            count[0] += 1
            self.dir = os.path.join(top, "m%d" % count[0])
            os.mkdir(self.dir)
            os.chdir(self.dir)
            plt.close("all")
            self.folders = 0
            self.args, self.n = rng.choice(GRIDS)
            keep = rng.random() < 0.5
            if resume and self.interrupted(keep):
                self.do("resume")
            else:
                res, self.g = call(self.build, keep)
                if self.g is None:
                    raise RuntimeError("grid not built: " + res)
                self.log("build", res)

        def build(self, keep, saving=False):
            return ShallotGrid(GridParameters(*self.args), self.n, 50, keep,
                               saving)

        def interrupted(self, keep):
            """a build that leaves a checkpoint"""
            real, left = np.save, [rng.randrange(3, 40)]

            def save(*a, **k):
                left[0] -= 1
                if left[0] < 0:
                    raise RuntimeError("no space left")
                return real(*a, **k)
            np.save = save
            try:
                res, _ = call(self.build, keep, True)
            finally:
                np.save = real
            folders = [f for f in os.listdir(".") if os.path.isdir(f)]
            if res == "ok" or len(folders) != 1:
                return False
            res, self.g = call(ShallotGrid.load, folders[0], 50)
            return self.g is not None

        def maps(self):
            g = self.g
            out = [(k, k, getattr(g, a)) for k, a in PARTS]
            out += [("gradient", "gradient %r" % float(x.position), x)
                    for x in g.gradients or []]
            if g.gradient_fit is not None:
                out.append(("fit", "fit", g.gradient_fit))
            return [x for x in out if x[2] is not None]

        def pick(self, kind):
            return rng.choice([x for x in self.maps() if x[0] == kind] or
                              [x for x in self.maps()])

        @staticmethod
        def axes_of(p):
            return digest(*p.get_vectors(), p.dx, p.dy, p.rf, p.rf_array,
                          p.grid_shape, p.slice_shape)

        def contrast(self, m):
            return dict(lo=m.vmin, hi=m.vmax, map=str(m.color_map),
                        n=int(m.num_colors))

        def log(self, op, res, target="-", drawn=()):
            maps = []
            for kind, key, m in self.maps():
                data = m.get_data(False)
                with np.errstate(all="ignore"):
                    ends = (np.nanmin(data), np.nanmax(data)) if np.any(
                        data == data) else (np.nan, np.nan)
                colours = plt.get_cmap(m.color_map)
                meet = np.max(np.abs(np.array(colours(0.0)) -
                                     np.array(colours(1.0)))) < 0.1
                maps.append(dict(
                    self.contrast(m), kind=kind, key=key, name=str(m.name),
                    unit=str(m.unit), min=ends[0], max=ends[1],
                    cyclic=bool(meet), axes=self.axes_of(m.grid_parameters),
                    shape=list(data.shape)))
            grads = list(self.g.gradients or [])
            rng.shuffle(grads)
            sort, grads = call(sorted, grads)
            self.raw.append(dict(
                op=op, res=res, target=target, drawn=list(drawn), maps=maps,
                axes=self.axes_of(self.g.parameters),
                shape=[int(v) for v in self.g.parameters.grid_shape],
                sorted=[float(x.position) for x in grads]
                if sort == "ok" else [1.0, 0.0]))

        def do(self, op, kind="-"):
            g = self.g
            res, target, drawn = "ok", "-", []
            n = len(g.gradients or [])
            if op == "eclipse":
                self.ecl = (rng.choice([1.0, 2.0]), rng.uniform(2, 6),
                            rng.random())
                res, _ = call(g.set_eclipse_parameters, *self.ecl)
            elif op == "add":
                if g._eclipse_duration is None:
                    self.do("eclipse")
                k = rng.randrange(1, 4)
                res, _ = call(g.add_gradients, *[np.array(
                    [rng.uniform(*ends) for _ in range(k)]) for ends in (
                        (-0.9, 0.9), (0, 0.3), (0.1, 1), (0.6, 1))])
            elif op == "remove":
                if not n:
                    return
                res, _ = call(g.remove_gradients, np.array(
                    [rng.randrange(n) for _ in range(rng.randrange(1, 3))]))
            elif op == "rescale":
                res, _ = call(g.update_gradient_scaling, rng.uniform(3, 9),
                              rng.random(), None)
            elif op == "fit":
                if not n:
                    return
                res, _ = call(g.determine_gradient_fit, rng.random() < 0.5)
            elif op == "hill":
                res, _ = call(g.generate_hill_radius_mask,
                              rng.choice([0, 0.9, 1.5, 100]))
            elif op == "read":
                for f in (g.get_disk_radius, g.get_inclination, g.get_tilt,
                          g.get_fx_map, g.get_fy_map, g.get_diagnostic_map):
                    _, a = call(f, rng.random() < 0.5, rng.random() < 0.5)
                    if a is not None:
                        a[:] = 7e3
                call(g.determine_closest_grid_point, 1.0, 50.0, 10.0, 0.5,
                     False)
                call(str, g)
                if g.gradient_fit is not None:
                    call(g.extract_solutions, 1)
            elif op == "refuse":
                res, _ = rng.choice([
                    lambda: call(g.set_eclipse_parameters, -1, 5, 0.5),
                    lambda: call(g.add_gradients, np.array([0.1, 0.2]),
                                 np.array([0.1, -0.1])),
                    lambda: call(g.generate_hill_radius_mask, -1.0),
                    lambda: call(g.update_gradient_scaling, -5.0, None, None),
                    lambda: call(g.remove_gradients, np.array([99]))])()
            elif op == "diagnose":
                res, _ = call(g.diagnose_fxfy_resolution)
            elif op == "contrast":
                _, target, m = self.pick(kind)
                a, b = sorted(rng.uniform(-3, 9) for _ in range(2))
                res, _ = call(m.set_contrast_parameters, **dict(
                    {}, **(dict(vmin=a) if rng.random() < 0.7 else {}),
                    **(dict(vmax=b) if rng.random() < 0.7 else {}),
                    **(dict(color_map=rng.choice(
                        ["plasma", "twilight", "gray"]))
                       if rng.random() < 0.7 else {}),
                    **(dict(num_colors=rng.randrange(2, 40))
                       if rng.random() < 0.7 else {})))
            elif op == "draw":
                # limits in the wrong order cannot be drawn
                drawable = [x for x in self.maps() if x[2].vmin < x[2].vmax]
                for _, key, m in rng.sample(drawable, min(3, len(drawable))):
                    axis = rng.choice([a for a in range(3) if m.get_data(
                        False).shape[a] > 1])
                    ax = plt.figure(figsize=(2, 2)).gca()
                    res, _ = call(m.plot_slice, axis, rng.randrange(
                        m.get_data(False).shape[axis]), ax,
                        rng.random() < 0.5)
                    if res == "ok" and ax.images:
                        im = ax.images[-1]
                        lo, hi = im.get_clim()
                        name = im.get_cmap().name
                        drawn.append(dict(key=key, contrast=dict(
                            lo=lo, hi=hi, map=str(m.color_map)
                            if name.startswith(str(m.color_map)) else name,
                            n=int(im.get_cmap().N))))
                    plt.close("all")
            elif op == "save":
                self.folders += 1
                res, _ = call(g.save, "s%d" % self.folders)
            elif op == "load":
                if not self.folders:
                    return
                res, new = call(ShallotGrid.load, "s%d" % self.folders, 50)
                if new is not None:
                    self.g = new
                    if rng.random() < 0.5:
                        self.log(op, res)
                        op = "rescale"
                        res, _ = call(new.update_gradient_scaling, 5.0, 0.5,
                                      None)
            self.log(op, res, target, drawn)

        def close(self):
            os.chdir(top)
            shutil.rmtree(self.dir)
            plt.close("all")
            ranks = Ranks()

            def all_of(r):
                for m in r["maps"]:
                    yield from ((m, k) for k in ("lo", "hi", "min", "max"))
                for d in r["drawn"]:
                    yield from ((d["contrast"], k) for k in ("lo", "hi"))
            for r in self.raw:
                for d, k in all_of(r):
                    ranks.add(d[k])
                for x in r["sorted"]:
                    ranks.add(x)
            ranks.freeze()
            for r in self.raw:
                for d, k in all_of(r):
                    d[k] = ranks.of(d[k])
                r["sorted"] = [ranks.of(x) for x in r["sorted"]]
            return dict(what=self.what, recs=self.raw, w=len(self.raw) * 3)

    items = [h for h in edges["lives"] if len(h) >= 3]
    groups = {}
    for h in items:
        groups.setdefault((h[-1]["op"], h[-1]["kind"], h[-2]["op"]),
                          []).append(h)
    sample = [rng.choice(g) for _, g in sorted(groups.items())]
    sample += rng.sample(items, min(30 if quick else 600, len(items)))
    for hist in sample:
        w = World("model history")
        for h in hist:
            w.do(h["op"], h["kind"])
        yield w.close()
    KINDS = ["radius", "inclination", "tilt", "fx", "fy", "deviation",
             "gradient", "gradient", "fit"]
    for i in range(40 if quick else 500):
        w = World("long life", resume=i % 3 == 0)
        for _ in range(rng.randrange(6, 16)):
            w.do(rng.choice(["add", "add", "remove", "rescale", "fit", "fit",
                             "hill", "read", "refuse", "diagnose", "contrast",
                             "contrast", "draw", "save", "load", "eclipse"]),
                 rng.choice(KINDS))
        yield w.close()
