"""C26: printed reports state the actual parameters."""
import random
import re

TRACE_MODULE = "T_Report"


def models(prop, tier):
    return [dict(module="MC_Report", name="lives", edges=True, workers=1,
                 cfg="SPECIFICATION Spec\nCONSTANTS MaxLen = %d\n"
                     "MaxRows = %d\nVIEW View\nINVARIANT Inv\n"
                     "PROPERTY Tells\nACTION_CONSTRAINT Emit\n"
                     % ((5, 3) if tier == "quick" else (7, 4)))]


def assumptions(prop):
    return ["headings, spacing and rules of the reports are not judged",
            "no infinite numbers in the data of a printed property",
            "the report of a viewer is compared with the title it shows"]


def corruptors(prop):
    def number(cls, label=None):
        def fn(s):
            for r in s["recs"]:
                if r["cls"] == cls and r["res"] == "ok":
                    for it in r["items"]:
                        if it["nums"] and it["nums"][0] and \
                                (label is None or it["k"] == label):
                            v = it["nums"][-1]
                            # one unit of the fourth decimal or more
                            v = (v + [0] * 3)[:3] + v[3:]
                            v[2] += 200
                            it["nums"][-1] = v
                            return s
        return fn

    def dropped(s):
        for r in s["recs"]:
            rows = [i for i in r["items"] if i["k"] in ("ring", "property")]
            if len(rows) > 1:
                r["items"].remove(rows[-1])
                return s

    def swapped(s):
        for r in s["recs"]:
            rows = [i for i in r["items"] if i["k"] == "ring"]
            if len(rows) > 1:
                a, b = rows[0], rows[1]
                a["nums"][1:], b["nums"][1:] = b["nums"][1:], a["nums"][1:]
                if a["nums"][1:] != b["nums"][1:]:
                    return s

    def changed(s):
        s["recs"][-1]["post"] = "0"
        return s

    def raised(s):
        s["recs"][0]["res"] = "TypeError"
        return s

    def title(s):
        for r in s["recs"]:
            for it in r["items"]:
                if it["txt"]:
                    it["txt"] += "?"
                    return s
    out = [(c, number(c)) for c in ("ring", "system", "params", "diagnostics",
                                    "property", "gradient", "grid")]
    out += [("median", number("property", "median value")),
            ("mean", number("grid", "mean value")),
            ("masked", number("grid", "percentage masked")),
            ("worst", number("grid", "worst interpolation fit")),
            ("dropped", dropped), ("swapped", swapped), ("changed", changed),
            ("raised", raised), ("title", title)]
    return out


NUM = r"(-?(?:[0-9]+(?:\.[0-9]*)?(?:e[+-]?[0-9]+)?|nan|inf))"
LABELS = ["Inner Radius", "Outer Radius", "Transmission", "Inclination",
          "Tilt", "Planet Radius", "min value", "max value", "mean value",
          "median value", "mask [out]", "measured gradient", "measured error",
          "orbital scale", "transmission change", "percentage masked",
          "worst interpolation fit", "diagnostics saved"]
LINES = [
    (re.compile(r"\s*(%s)\s*:\s*%s(?:\s|%%|$)" % (
        "|".join(re.escape(x) for x in LABELS), NUM)),
     lambda m: (m.group(1), "", m.groups()[1:])),
    (re.compile(r"\s*(dx|dy):\s*%s\s*->\s*%s\s*\(([0-9]+)\)" % (NUM, NUM)),
     lambda m: (m.group(1), "", m.groups()[1:])),
    (re.compile(r"\s*rf:\s*%s\s*->\s*%s\s*->\s*%s\s*\(([0-9]+)\)"
                % (NUM, NUM, NUM)), lambda m: ("rf", "", m.groups())),
    (re.compile(r"\s*grid_shape:\s*\(([^)]*)\)"),
     lambda m: ("shape", "", re.findall(r"[0-9]+", m.group(1)))),
    (re.compile(r"\s*([0-9]+)\s+%s\s+%s\s+%s\s*$" % (NUM, NUM, NUM)),
     lambda m: ("ring", "", m.groups())),
    (re.compile(r"(\S.*? \[.*\]) @ pos =\s*%s\s*$" % NUM),
     lambda m: ("property", m.group(1), m.groups()[1:])),
    (re.compile(r"(\S.*? \[.*\])\s*$"),
     lambda m: ("property", m.group(1), ()))]


def exact(text):
    """the number that is printed, not the float next to it"""
    from fractions import Fraction
    try:
        return Fraction(text)
    except ValueError:
        return float(text)


def parse(text, cls):
    items = []
    if cls == "viewer":
        for line in text.split("\n"):
            line = line.strip()
            if line and line != "Grid Property Viewer" and \
                    set(line) not in ({"-"}, {"="}):
                items.append(("title", line, ()))
        return items
    for line in text.split("\n"):
        for pattern, make in LINES:
            m = pattern.match(line)
            if m:
                items.append(make(m))
                break
    return items


def drive(prop, seed, tier, edges):
    import enum
    import hashlib
    import logging
    import numpy as np
    import matplotlib.pyplot as plt
    from matplotlib.backend_bases import MouseEvent
    from GridDiagnostics import GridDiagnostics
    from GridParameters import GridParameters
    from GridProperty import GridGradient, GridProperty, GridPropertyViewer
    from GridPropertyName import GridPropertyName
    from GridPropertyUnit import GridPropertyUnit
    from Ring import Ring
    from RingSystem import RingSystem
    from Shallot import ShallotGrid
    from obs import big, call
    rng = random.Random(seed * 1000 + 26)
    nprng = np.random.default_rng(seed * 1000 + 26)
    quick = tier == "quick"
    NAN = float("nan")

    def deep(x, seen=None):
        """Digest of everything that an object holds."""
        seen = seen if seen is not None else {}
        if id(x) in seen:
            return "#%d" % seen[id(x)]
        if isinstance(x, (str, bytes, int, float, type(None), np.generic)):
            return repr(x)
        if isinstance(x, enum.Enum):
            return str(x.name)
        seen[id(x)] = len(seen)
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                return "[%s]" % ",".join(deep(v, seen) for v in x.ravel())
            return "A%s%s%s" % (x.dtype, x.shape, hashlib.sha1(
                np.ascontiguousarray(x).tobytes()).hexdigest())
        if isinstance(x, (list, tuple)):
            return "[%s]" % ",".join(deep(v, seen) for v in x)
        if isinstance(x, dict):
            return "{%s}" % ",".join("%r:%s" % (k, deep(v, seen))
                                     for k, v in x.items())
        if isinstance(x, logging.Logger):
            return "logger"
        if type(x).__module__.split(".")[0] in ("matplotlib", "numpy"):
            return type(x).__name__
        return "%s(%s)" % (type(x).__name__, deep(vars(x), seen))

    def numbers(values):
        v = np.asarray(values, dtype=float).ravel()
        return [big(x) for x in sorted(v[np.isfinite(v)].tolist())]

    def params_state(p):
        dy, dx, rf = p.get_vectors()
        return dict(dx=[big(dx[0]), big(dx[-1])], dy=[big(dy[0]), big(dy[-1])],
                    rf=big(rf[0]), one=big(1), nx=len(dx), ny=len(dy),
                    nr=(len(rf) + 1) // 2)

    def property_state(p, pos=False):
        data = p.get_data(False)
        meas = []
        if pos and p.measured_gradient is not None:
            meas = [big(p.measured_gradient), big(p.measured_error),
                    big(p.orbital_scale), big(p.transmission_change)]
        return dict(title="%s [%s]" % (p.name.get_name(), p.unit.get_unit()),
                    at=[dict(kind="is", x=big(p.position))] if pos else [],
                    lo=[] if p.vmin is None else big(p.vmin),
                    hi=[] if p.vmax is None else big(p.vmax),
                    data=numbers(data), size=int(np.size(data)),
                    mask=-1 if p.mask is None else int(np.sum(p.mask)),
                    meas=meas, params=params_state(p.grid_parameters))

    class Life:
        """An object of a class, its changes and its reports."""

        def __init__(self, cls):
            self.cls, self.recs, self.what = cls, [], "life of a " + cls
            self.extra = None
            getattr(self, "new_" + cls)()

        def show(self):
            full = rng.random() < 0.6 or self.cls == "ring"
            o = getattr(self, "state_" + self.cls)()
            pre, extra = deep(self.x), self.aside()
            how = str if full else repr
            res, text = call(how, self.x)
            again = call(how, self.x)[1]
            post = deep(self.x) + self.aside()
            items = parse(text, self.cls) if res == "ok" else []

            def h(s):
                return hashlib.sha1(s.encode()).hexdigest()[:12]
            self.recs.append(dict(
                cls=self.cls, full=full, o=o, res=res, pre=h(pre + extra),
                post=h(post), same=text == again,
                items=[dict(k=k, txt=t, nums=[big(exact(n)) for n in ns])
                       for k, t, ns in items]))

        def aside(self):
            if self.cls != "viewer":
                return ""
            ax = self.ax
            return repr((ax.get_title(), ax.get_xlabel(), len(ax.lines),
                         len(ax.images), ax.get_xlim(), ax.get_ylim()))

        def session(self):
            return dict(what=self.what, recs=self.recs,
                        w=sum(4 + len(r["items"]) * (
                            8 if self.cls == "grid" else 2)
                            for r in self.recs))

        # ---- rings
        def values(self):
            inner = rng.choice([0, 0.0, 1e-9, rng.uniform(0, 3),
                                rng.uniform(0, 200), 0.00005, 12345.678])
            outer = inner + rng.choice([0.005, 0.00015, rng.uniform(0.1, 40),
                                        1e5])
            return (inner, outer, rng.choice([0, 1, 0.005, 0.99995,
                                              rng.random()]),
                    rng.choice([0, 90, 89.996, rng.uniform(0, 90)]),
                    rng.choice([0, -180, 180, -0.001, -0.00004,
                                rng.uniform(-180, 180)]))

        def new_ring(self):
            self.x = Ring(*self.values())

        def change_ring(self):
            i, o, t, inc, tilt = self.values()
            name = rng.choice(["inner_radius", "outer_radius", "transmission",
                               "inclination", "tilt"])
            value = dict(inner_radius=i, outer_radius=o, transmission=t,
                         inclination=inc, tilt=tilt)[name]
            call(setattr, self.x, name, value)

        def state_ring(self):
            x = self.x
            return dict(inner=big(x.inner_radius), outer=big(x.outer_radius),
                        trans=big(x.transmission), incl=big(x.inclination),
                        tilt=big(x.tilt))

        # ---- ring systems
        def new_system(self):
            v = self.values()
            n = rng.choice([0, 0, 1, 3, 12])
            edges_ = np.cumsum([rng.uniform(0.001, 9) for _ in range(2 * n)])
            self.x = RingSystem(
                rng.choice([0.1, 1, rng.uniform(0.01, 500)]),
                edges_[::2].copy(), edges_[1::2].copy(),
                np.array([rng.random() for _ in range(n)]), v[3], v[4],
                logging_level=50)

        def grow_system(self):
            outer = self.x.get_outer_radii()
            lo = (outer[-1] if len(outer) else 0) + rng.choice([0, 0.3])
            ring = Ring(lo, lo + rng.uniform(0.001, 30), rng.random(), 0, 0)
            if rng.random() < 0.3 and len(outer):
                inner = self.x.get_inner_radii()
                if inner[0] > 0.1:
                    ring = Ring(inner[0] / 3, inner[0] / 2, 0.5, 0, 0)
                    call(self.x.add_ring, 0, ring)
                    return
            call(self.x.add_ring, len(outer), ring)

        def shrink_system(self):
            n = self.x.get_num_rings()
            if n:
                call(self.x.remove_ring, rng.randrange(n))

        def change_system(self):
            n = self.x.get_num_rings()
            k = rng.randrange(4)
            if k == 0 and n and n < 30:
                call(self.x.split_rings, 2)
            elif k == 1 and n:
                call(self.x.merge_rings)
            elif k == 2 and n:
                i = rng.randrange(n)
                a, b = (self.x.get_inner_radii()[i],
                        self.x.get_outer_radii()[i])
                call(self.x.replace_ring, i,
                     Ring(a + (b - a) / 4, b - (b - a) / 4, rng.random(), 3,
                          4))
            else:
                self.x.planet_radius = rng.choice([0.005, 7,
                                                   rng.uniform(0.01, 90)])

        def state_system(self):
            x = self.x
            return dict(planet=big(x.planet_radius), incl=big(x.inclination),
                        tilt=big(x.tilt),
                        inner=[big(r.inner_radius) for r in x.rings],
                        outer=[big(r.outer_radius) for r in x.rings],
                        trans=[big(r.transmission) for r in x.rings])

        # ---- axes
        def axes(self, shape=None):
            ny, nx, nr = shape or (rng.randrange(1, 9), rng.randrange(1, 9),
                                   rng.randrange(1, 8))
            lo = [rng.choice([0, -1, -0.005, rng.uniform(-99, 9)])
                  for _ in range(2)]
            return GridParameters(
                lo[0], lo[0] + rng.choice([0.004, 1, rng.uniform(0.1, 1e3)]),
                nx, lo[1], lo[1] + rng.uniform(0.01, 9), ny,
                1 + rng.uniform(0.001, 20), nr)

        def new_params(self):
            self.x = self.axes()

        def change_params(self):
            if rng.random() < 0.5:
                self.x = GridParameters(0, rng.uniform(0.5, 3),
                                        rng.randrange(2, 6), 0, 2,
                                        rng.randrange(2, 6), 3, 4)
                call(self.x.extend_grid)
            else:
                self.new_params()

        def state_params(self):
            return params_state(self.x)

        # ---- diagnostics
        def new_diagnostics(self):
            ny, nx = rng.choice([(3, 4), (3, 4), (3, 4), (3, 4), (12, 11),
                                 (33, 35)])
            self.x = GridDiagnostics(self.axes((ny, nx, 2)))
            self.extra = set()
            if ny > 3:
                a = np.zeros(1)
                for y in range(ny):
                    for x in range(nx):
                        if call(self.x.save_diagnostic, y, x, a,
                                a)[0] == "ok":
                            self.extra.add((y, x))

        def grow_diagnostics(self):
            y, x = rng.randrange(3), rng.randrange(4)
            a = np.zeros(rng.randrange(1, 4))
            if call(self.x.save_diagnostic, y, x, a, a)[0] == "ok":
                self.extra.add((y, x))

        def change_diagnostics(self):
            if rng.random() < 0.2:
                self.x.extend()
            else:
                self.grow_diagnostics()

        def state_diagnostics(self):
            return dict(saved=len(self.extra))

        # ---- properties and gradients
        def data(self, n):
            v = nprng.normal(size=n) * 10 ** rng.choice([
                rng.uniform(-5, 5), rng.uniform(-5, 5), rng.uniform(5, 11)])
            if rng.random() < 0.3:
                v = np.round(v, 3)
            if rng.random() < 0.6:
                v[nprng.random(n) < rng.choice([0.1, 0.5, 0.95])] = NAN
            return v

        def new_property(self, data=None):
            shape = (rng.randrange(1, 4), rng.randrange(1, 4),
                     rng.choice([1, 3]))
            if data is None:
                data = self.data(shape)
            else:
                shape = data.shape
            p = self.axes((shape[0], shape[1], (shape[2] + 1) // 2))
            self.x = GridProperty(rng.choice(list(GridPropertyName)),
                                  rng.choice(list(GridPropertyUnit)), data, p)

        def new_gradient(self, data=None):
            shape = (rng.randrange(1, 4), rng.randrange(1, 4),
                     rng.choice([1, 3]))
            if data is None:
                data = nprng.random(shape)
                data[nprng.random(shape) < 0.3] = NAN
            shape = data.shape
            p = self.axes((shape[0], shape[1], (shape[2] + 1) // 2))
            self.x = GridGradient(data, p, rng.choice(
                [0, -0.25, 0.00004, -0.00004, rng.uniform(-3, 3)]))

        def flat_property(self):
            """all undefined, with or without limits"""
            self.new_property(np.full((2, 2, 1), NAN))

        def flat_gradient(self):
            self.new_gradient(np.full((1, 2, 3), NAN))

        def mask_property(self, k=None):
            shape = self.x.get_data(False).shape
            p = [0, 1, rng.random()][rng.randrange(3) if k is None else k]
            call(self.x.set_mask, nprng.random(shape) < p)
        mask_gradient = mask_property

        def change_property(self):
            k = rng.randrange(3)
            if k == 0:
                call(self.x.set_contrast_parameters)
            elif k == 1:
                wide = 10 ** rng.choice([4, 4, 8, 11])
                call(self.x.set_contrast_parameters, rng.uniform(
                    -rng.choice([9, wide]), 0), rng.uniform(0, wide))
            else:
                call(self.x.set_contrast_parameters, vmax=rng.uniform(0, 9))
        change_gradient = change_property

        def measure_gradient(self):
            if rng.random() < 0.4:      # wide numbers
                m = 10 ** rng.uniform(0.9, 5)
                call(self.x.determine_mask, m, rng.uniform(0, 0.05) / m,
                     rng.uniform(0.1, 1), 10 ** rng.uniform(0, 5))
                return
            if rng.random() < 0.3:
                call(self.x.determine_mask, rng.uniform(0, 0.0005),
                     10 ** rng.uniform(0.9, 3), 1.0, rng.uniform(0, 1e-3))
                return
            call(self.x.determine_mask, rng.uniform(0, 0.4),
                 rng.uniform(0, 2), rng.uniform(0.9, 1), rng.uniform(0, 9))

        def state_property(self):
            return property_state(self.x)

        def state_gradient(self):
            return property_state(self.x, True)

        # ---- viewers
        def new_viewer(self):
            plt.close("all")
            self.new_property(self.data((3, 3, 3)))
            self.fig, self.ax = plt.subplots(figsize=(1, 1), dpi=20)
            self.x = GridPropertyViewer(
                self.ax, rng.randrange(3), self.x, rng.random() < 0.5,
                frozen=rng.random() < 0.2)

        def change_viewer(self):
            event = MouseEvent("scroll_event", self.fig.canvas, 5, 5,
                               button="up", step=rng.choice([1, -1]))
            call(self.x.onscroll, event)

        def state_viewer(self):
            return dict(title=self.ax.get_title().strip())

        # ---- grids
        def new_grid(self):
            spec, n = rng.choice([
                ((0, 1, 2, 0, 1, 2, 2, 2), 60),
                ((-1, 2, 3, 0.25, 1.5, 2, 3, 2), 60),
                ((-1, 1, 3, -1, 1, 3, 1.8, 2), 60),
                ((0.2, 1.2, 2, -0.5, 1, 3, 4, 3), 60),
                ((1, 2, 1, 1, 2, 1, 2, 1), 60)])
            p = GridParameters(*spec)
            keep = rng.random() < 0.5
            stored = set()
            real = GridDiagnostics.save_diagnostic

            def spy(me, y, x, *args, **kw):
                out = real(me, y, x, *args, **kw)
                stored.add((int(y), int(x)))
                return out
            GridDiagnostics.save_diagnostic = spy
            res, self.x = call(ShallotGrid, p, n, keep_diagnostics=keep,
                               logging_level=50)
            GridDiagnostics.save_diagnostic = real
            self.extra = len(stored) if keep else -1
            if res != "ok":
                raise RuntimeError("grid not built: %s %s" % (res, spec))
            self.x.set_eclipse_parameters(1.0, 3.0, 0.5)

        def grow_grid(self):
            n = rng.randrange(1, 3)
            call(self.x.add_gradients,
                 np.array([rng.uniform(-0.5, 0.5) for _ in range(n)]),
                 np.array([rng.uniform(0, 0.3) for _ in range(n)]))

        def shrink_grid(self):
            n = len(self.x.gradients or [])
            if n:
                call(self.x.remove_gradients,
                     np.array([rng.randrange(n)], dtype="int64"))

        def mask_grid(self, k=None):
            R = self.x.get_disk_radius(False, False)
            call(self.x.generate_hill_radius_mask,
                 float(np.nanquantile(R, rng.random())))

        def measure_grid(self):
            call(self.x.determine_gradient_fit)

        def change_grid(self):
            n = len(self.x.gradients or [])
            k = rng.randrange(3)
            if k == 0 and n:
                call(self.x.update_gradient_scaling,
                     transmission_changes=np.array(
                         [rng.uniform(0.6, 1) for _ in range(n)]))
            elif k == 1:
                call(self.x.tilt.set_contrast_parameters,
                     rng.uniform(-90, 0), rng.uniform(0, 90))
            else:
                call(self.x.set_eclipse_parameters, 1.0, rng.uniform(2, 5),
                     rng.random())

        def state_grid(self):
            g = self.x
            diag = g.get_diagnostic_map(False, False)
            comb = g.get_combined_mask()
            return dict(params=params_state(g.parameters),
                        maps=[property_state(p) for p in
                              (g.disk_radius, g.tilt, g.inclination)],
                        grads=[property_state(p, True)
                               for p in g.gradients or []],
                        saved=self.extra, masked=int(np.sum(comb)),
                        size=int(np.size(comb)), diag=numbers(diag))

        def do(self, op, **kw):
            fn = getattr(self, op + "_" + self.cls, None)
            if fn is not None:
                fn(**kw)

    items = edges["lives"]
    for cls in ("ring", "system", "params", "diagnostics", "property",
                "gradient", "viewer", "grid"):
        mine = [h for h in items if h[0]["cls"] == cls and len(h) > 4]
        n = dict(grid=14, viewer=15).get(cls, 45) * (1 if quick else 15)
        for h in rng.sample(mine, min(n, len(mine))):
            life = Life(cls)
            for e in h[1:]:
                if e["op"] == "print":
                    life.show()
                elif e["op"] == "mask":
                    life.do("mask", k=e["k"])
                else:
                    life.do(e["op"])
            life.show()
            yield life.session()
    for k in range(30 if quick else 400):
        life = Life(rng.choice(["system", "property", "gradient", "ring",
                                "params", "grid"]))
        for _ in range(rng.randrange(2, 8)):
            op = rng.choice(["grow", "shrink", "mask", "measure", "change",
                             "change", "flat"])
            life.do(op)
            if rng.random() < 0.4:
                life.show()
        life.show()
        yield life.session()
    plt.close("all")
