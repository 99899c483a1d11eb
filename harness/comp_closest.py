"""C24: the grid point that is closest to a disk."""
import hashlib
import random

TRACE_MODULE = "T_Closest"


def models(prop, tier):
    quick = tier == "quick"
    return [dict(module="MC_Closest", name="queries", edges=True, workers=1,
                 cfg="SPECIFICATION Spec\nCONSTANTS Rows = %d\nSizes = %d\n"
                     "MaxLen = %d\nVIEW View\nINVARIANT Inv\n"
                     "ACTION_CONSTRAINT Emit\n" % (
                         2, 3 if quick else 5, 4 if quick else 6))]


def assumptions(prop):
    return ["distances are compared with a relative tolerance of 10^-8",
            "nothing is demanded where no searched point lies on the right "
            "side of the path"]


def corruptors(prop):
    def asks(s, n=1):
        return [r for r in s["recs"] if r["op"] == "ask" and
                r["res"] == "ok" and r["out"]["idx"] and
                not r["q"]["masked"] and min(r["q"]["b"]) >= 0]

    def index(s):
        for r in asks(s):
            shape, i = s["recs"][0]["base"]["shape"], r["out"]["idx"]
            i[2] = (i[2] + 1) % shape[2]
            return s

    def distance(s):
        for r in asks(s):
            if len(r["out"]["dist"]) == 3:
                r["out"]["dist"].append(1)
                return s

    def worse(s):
        """reports another point, consistently"""
        base = s["recs"][0]["base"]
        for r in asks(s):
            for other in asks(s):
                if other is not r and other["out"]["idx"] != r["out"]["idx"]:
                    r["out"]["idx"] = other["out"]["idx"]
                    r["out"]["coord"] = other["out"]["coord"]
                    return s
        return None if base else None

    def accepted(s):
        for r in s["recs"]:
            if r["op"] == "ask" and not r["q"]["wf"]:
                r["res"] = "ok"
                return s

    def changed(s):
        for r in asks(s):
            r["post"] = dict(r["post"], radius="0")
            return s
    return [("index", index), ("distance", distance), ("worse", worse),
            ("accepted", accepted), ("changed", changed)]


def drive(prop, seed, tier, edges):
    import numpy as np
    from GridParameters import GridParameters
    from Shallot import ShallotGrid
    from obs import big, call
    rng = random.Random(seed * 1000 + 24)
    quick = tier == "quick"
    NAN = float("nan")
    GRIDS = [((0, 1, 2, 0, 1, 2, 2, 2), 60),
             ((-1, 2, 3, 0.25, 1.5, 2, 3, 2), 60),
             ((0, 1.5, 2, 0, 2, 3, 2.5, 2), 60),
             ((-1, 1, 2, -1.5, 1, 4, 1.8, 2), 60),
             ((0.2, 1.2, 2, -0.5, 2, 2, 4, 3), 60),
             ((-1, 3, 2, -3, 1, 3, 2, 3), 60),
             # hardly to one side of the path
             ((0.5, 1.5, 2, -0.02, 0.02, 4, 3, 2), 60),
             ((-0.3, 1, 2, -1e-3, 2e-3, 4, 2, 2), 60),
             ((0, 1, 2, 0, 0.05, 2, 2, 2), 60)]
    MAPS = ("radius", "inclination", "tilt", "fx", "fy", "diag")

    def digest(x):
        if x is None:
            return "none"
        return hashlib.sha1(np.ascontiguousarray(x).tobytes()).hexdigest()[:16]

    class World:
        def __init__(self, what):
            self.what = what
            args, n = rng.choice(GRIDS)
            res, self.g = call(ShallotGrid, GridParameters(*args), n,
                               logging_level=50)
            if self.g is None:
                raise RuntimeError("grid not built: " + res)
            g = self.g
            self.get = dict(radius=g.get_disk_radius,
                            inclination=g.get_inclination, tilt=g.get_tilt,
                            fx=g.get_fx_map, fy=g.get_fy_map,
                            diag=g.get_diagnostic_map)
            self.maps = {k: np.array(f(False, False)) for k, f in
                         self.get.items()}
            self.shape = self.maps["radius"].shape
            self.dy, self.dx, self.rf = [np.array(v, dtype=float) for v in
                                         g.parameters.get_vectors()]
            base = {k: [big(v) for v in self.maps[k].reshape(-1)]
                    for k in ("radius", "inclination", "tilt")}
            base.update(dy=[big(v) for v in self.dy],
                        dx=[big(v) for v in self.dx],
                        rf=[big(v) for v in self.rf], shape=list(self.shape))
            self.size = len(base["radius"])
            self.recs = [dict(op="init", base=base)]
            g.set_eclipse_parameters(1.0, 3.0, 0.5)

        def snapshot(self):
            g = self.g
            out = {k: digest(f(False, False)) for k, f in self.get.items()}
            out.update(("m" + k, digest(f(True, True)))
                       for k, f in self.get.items())
            out["mask"] = digest(g.get_combined_mask())
            out["axes"] = digest(np.concatenate(
                [np.ravel(v) for v in g.parameters.get_vectors()]))
            out["grads"] = " ".join(digest(x.get_data(False)) + digest(x.mask)
                                    for x in g.gradients or [])
            out["fit"] = digest(g.get_gradient_fit(False, False))
            return out

        def hill(self, h=None):
            R = self.maps["radius"]
            ok = np.sort(R[np.isfinite(R)])
            self.g.generate_hill_radius_mask(float(
                ok[int(len(ok) * rng.choice([0.3, 0.6, 0.8, 0.95]))]))

        def slope(self, k):
            if self.g.gradients:
                self.g.remove_gradients(
                    np.arange(len(self.g.gradients), dtype="int64"))
            if k:
                n = k
                for _ in range(20):
                    res, _ = call(
                        self.g.add_gradients,
                        np.array([rng.uniform(-0.5, 0.5) for _ in range(n)]),
                        np.array([rng.choice([0.05, 0.2, 0.4])
                                  for _ in range(n)]))
                    if res == "ok" and not self.g.get_combined_mask().all():
                        if rng.random() < 0.3:
                            self.g.determine_gradient_fit()
                        return
                    if res == "ok":
                        self.g.remove_gradients(np.arange(
                            len(self.g.gradients), dtype="int64"))

        def ask(self, kind, masked):
            m = self.maps
            hidden = self.g.get_combined_mask()
            ok = np.isfinite(m["radius"])
            if rng.random() < 0.6 and (ok & ~hidden).any():
                ok = ok & ~hidden
            pts = np.argwhere(ok)
            p = tuple(pts[rng.randrange(len(pts))])
            q = tuple(pts[rng.randrange(len(pts))])

            def at(p):
                return [float(m["radius"][p]), float(m["inclination"][p]),
                        float(m["tilt"][p]), float(self.dy[p[0]])]
            v, wf = at(p), True
            if kind == "near":
                v = [v[0] * rng.uniform(0.95, 1.05),
                     v[1] + rng.uniform(-1, 1), v[2] + rng.uniform(-1, 1),
                     v[3] + rng.uniform(-0.1, 0.1)]
            elif kind == "between":
                w, t = at(q), rng.choice([0.5, rng.random()])
                v = [a * t + b * (1 - t) for a, b in zip(v, w)]
            elif kind == "random":
                v = [rng.uniform(0, 6), rng.uniform(0, 90),
                     rng.uniform(-180, 180), rng.uniform(-2, 2)]
                if rng.random() < 0.4:
                    # only the impact parameter tells
                    v[1:3] = at(p)[1:3]
                    v[0] = at(p)[0]
            elif kind == "far":
                v = [rng.choice([0, 1e3]), rng.choice([0, 90]),
                     rng.choice([-180, 180, 0]), rng.choice([-20, 20.0])]
            elif kind == "other_side":
                v[3] = -v[3] * rng.choice([1, 1e-3, 0.1])
            elif kind == "on_path":
                v[3] = rng.choice([0, 0.0, 1e-9, -1e-9, -0.0])
            args = list(v)
            if kind == "bad":
                j = rng.randrange(4)
                bad = {0: [-1.0, -1e-9, NAN], 1: [-0.1, 90.1, NAN],
                       2: [-180.1, 181, NAN], 3: [NAN]}[j]
                if rng.random() < 0.4:
                    wf, args[j] = False, rng.choice(["1", None, [1.0]])
                else:
                    v[j] = args[j] = rng.choice(bad)
                v = [x if isinstance(x, (int, float)) else 0.0 for x in v]
            v = [min(90.0, max(0.0, x)) if k == 1 and kind != "bad" else x
                 for k, x in enumerate(v)]
            if kind != "bad":
                v[2] = min(180.0, max(-180.0, v[2]))
                args = list(v)
            pass_mask = [masked]
            if masked and rng.random() < 0.5:
                pass_mask = []
            elif kind == "bad" and rng.random() < 0.2:
                wf, pass_mask = False, [rng.choice([1, "yes", None])]
            pre = self.snapshot()
            res, out = call(self.g.determine_closest_grid_point,
                            *args, *pass_mask)
            post = self.snapshot()
            o = dict(coord=[], idx=[], dist=[])
            if res == "ok":
                coord, idx, dist = out
                o = dict(coord=[big(c) for c in coord],
                         idx=[int(i) for i in idx], dist=big(dist))
            self.recs.append(dict(
                op="ask", res=res, out=o, pre=pre, post=post,
                hidden=[int(k) + 1 for k in np.flatnonzero(hidden)],
                q=dict(wf=wf, masked=masked, R=big(v[0]), i=big(v[1]),
                       t=big(v[2]), b=big(v[3]))))

        def session(self):
            return dict(what=self.what, recs=self.recs,
                        w=len(self.recs) * (5 + self.size))
    kinds = ["point", "near", "between", "random", "far", "other_side",
             "on_path", "bad"]
    items = edges["queries"]
    last = [h for h in items if len(h) >= 3]
    for hist in rng.sample(last, min(90 if quick else 1500, len(last))):
        w = World("model history")
        for h in hist:
            if h["op"] == "hill":
                w.hill()
            elif h["op"] == "slope":
                w.slope(h["k"])
            else:
                w.ask(h["kind"], h["masked"])
        w.ask("random", rng.random() < 0.5)
        yield w.session()
    for _ in range(40 if quick else 400):
        w = World("random history")
        for _ in range(rng.randrange(4, 12)):
            k = rng.random()
            if k < 0.12:
                w.hill()
            elif k < 0.25:
                w.slope(rng.randrange(3))
            else:
                w.ask(rng.choice(kinds), rng.random() < 0.5)
        yield w.session()
