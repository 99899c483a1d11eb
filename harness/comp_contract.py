"""C29: every argument of the public interface against its documented domain."""
import logging
import os
import random
import re
import shutil
import sys
import types
from copy import deepcopy

from comp_build import digest, tree
from comp_gridsave import grid_state

TRACE_MODULE = "T_Contract"


def models(prop, tier):
    return [dict(module="MC_Contract", name="calls", edges=True, workers=2,
                 cfg="SPECIFICATION Spec\nCONSTANTS Calls = 1\nINVARIANT Inv\n"
                     "PROPERTY Unchanged\nACTION_CONSTRAINT Emit\n")]


def assumptions(prop):
    return ["one argument at a time is varied, the others are admissible",
            "numbers are multiples of 10^-4 and the floating point numbers "
            "next to bounds",
            "booleans and unsigned integers given as numbers, numpy booleans "
            "given as booleans and infinities where there is no bound are not "
            "specified"]


def corruptors(prop):
    def first(s, cond):
        return next((r for r in s["recs"] if r["op"] == "call" and cond(r)),
                    None)

    def default(s):
        r = next((r for r in s["recs"] if r["op"] == "omit"), None)
        if r:
            r["a"] += "x"
            return s

    def accepted(s):
        r = first(s, lambda r: r["base"])
        if r:
            r["res"] = "ValueError"
            return s

    def refused(s):
        r = first(s, lambda r: not r["base"] and r["v"]["k"] == "list" and
                  r["res"] != "ok" and r["p"] != "coordinates")
        if r:
            r["res"] = "ok"
            return s

    def told(s):
        r = first(s, lambda r: not r["base"] and r["v"]["k"] == "object0" and
                  r["res"] != "ok")
        if r:
            r["told"] = ["argument"]
            return s

    def unchanged(s):
        r = first(s, lambda r: r["v"]["k"] == "object0" and r["res"] != "ok")
        if r:
            r["post"] += "x"
            return s

    def args(s):
        s["recs"][0]["args"] = False
        return s

    def files(s):
        r = first(s, lambda r: r["v"]["k"] == "object0" and r["res"] != "ok")
        if r:
            r["files"] = False
            return s
    return [("accepted", accepted), ("refused", refused), ("told", told),
            ("unchanged", unchanged), ("arguments", args), ("files", files),
            ("default", default)]


def drive(prop, seed, tier, edges):
    import numpy as np
    import matplotlib.pyplot as plt
    from GridDiagnostics import GridDiagnostics
    from GridParameters import GridParameters
    from GridProperty import GridGradient, GridProperty, GridPropertyViewer
    from GridPropertyName import GridPropertyName
    from GridPropertyUnit import GridPropertyUnit
    from Ring import Ring
    from RingSystem import RingSystem
    from Shallot import ShallotGrid
    from obs import call
    rng = random.Random(seed * 1000 + 29)
    nprng = np.random.default_rng(seed * 1000 + 29)
    quick = tier == "quick"
    top = os.getcwd()
    count = [0]

    def fresh(name):
        """a new name in the scratch folder of the check"""
        count[0] += 1
        return os.path.join(top, "%s%d" % (name, count[0]))

    # ------------------------------------------------ numbers and their form
    def numbers(n):
        kinds = [int, np.int64, np.int32] + [np.int8] * (abs(n) < 100)
        return rng.choice(kinds)(n)

    def real(x):
        kinds = [float, np.float64]
        if float(np.float32(x)) == x:
            kinds.append(np.float32)
        return rng.choice(kinds)(x)

    def q_of(x):
        """(q, e) of a number: multiples of 10^-4 and their neighbours"""
        x = float(x)
        q = round(x * 10000)
        near = q / 10000
        return q, (x > near) - (x < near)

    def describe(x):
        d = dict(k="object", q=0, e=0, plain=False, cls="", dtype="",
                 shape=[], els=[])
        if x is None:
            d["k"] = "none"
        elif isinstance(x, (bool, np.bool_)):
            d["k"] = "bool" if isinstance(x, bool) else "npbool"
        elif isinstance(x, np.unsignedinteger):
            d["k"] = "unsigned"
        elif isinstance(x, (int, np.integer)):
            d.update(k="int", q=int(x) * 10000)
        elif isinstance(x, (float, np.floating)):
            if x != x:
                d["k"] = "nan"
            elif abs(x) == np.inf:
                d["k"] = "inf" if x > 0 else "-inf"
            else:
                q, e = q_of(x)
                d.update(k="float", q=q, e=e)
        elif isinstance(x, str):
            d.update(k="string")
        elif isinstance(x, np.ndarray):
            d.update(k="array", dtype=str(x.dtype), shape=list(x.shape))
            if x.dtype.kind in "fi" and x.ndim == 1:
                d["els"] = [{n: describe(v)[n] for n in ("k", "q", "e")}
                            for v in x]
            elif x.ndim == 0:
                d["shape"] = []
        elif isinstance(x, list):
            d.update(k="list", cls="list")
        elif type(x) is object:
            d["k"] = "object0"
        for c in (Ring, GridParameters, GridGradient, GridProperty,
                  GridPropertyName, GridPropertyUnit, plt.Axes):
            if isinstance(x, c):
                d["cls"] = "Axes" if c is plt.Axes else "GridProperty" \
                    if c is GridGradient else c.__name__
                break
        return d

    def copy(x):
        """what an argument looks like"""
        if isinstance(x, np.ndarray):
            return (str(x.dtype), x.shape, x.tobytes())
        if isinstance(x, Ring):
            return ring_state(x)
        if isinstance(x, GridParameters):
            return parameters_state(x)
        if isinstance(x, GridProperty):
            return property_state(x)
        if isinstance(x, (list, str, int, float, np.generic, type(None))):
            return repr(x)
        return ""

    # ------------------------------------------------------ states of objects
    def ring_state(r):
        return repr([float(v) for v in (
            r.inner_radius, r.outer_radius, r.transmission, r.inclination,
            r.tilt)])

    def system_state(s):
        return repr([[float(v) for v in a] for a in s.get_rings_data()] + [
            float(s.planet_radius), float(s.inclination), float(s.tilt)] + [
                ring_state(r) for r in s.rings])

    def parameters_state(p):
        return digest(*p.get_vectors(), p.dx, p.dy, p.rf, p.rf_array,
                      p.grid_shape, p.slice_shape, p.extendable)

    def diagnostics_state(d, p):
        parts = []
        for y in range(p.slice_shape[0]):
            for x in range(p.slice_shape[1]):
                res, out = call(d.get_diagnostic, y, x)
                parts += [[y, x], *out] if res == "ok" else [[-y, -x]]
        return digest(*parts) + str(d)

    def property_state(q):
        return digest(q.get_data(False), q.get_data(True)) + repr([
            q.vmin, q.vmax, q.color_map, q.num_colors, q.mask is None])

    def gradient_state(g):
        return property_state(g) + repr([
            g.measured_gradient, g.orbital_scale, g.transmission_change,
            g.measured_error, call(g.get_scaled_gradient)])

    # ---------------------------------------------------------------- worlds
    # methods: name -> (function of the arguments, admissible arguments,
    # quantities that their domains refer to)
    def tenk(x):
        return q_of(x)[0]

    def nothing(**kw):
        return {}

    class World:
        def __init__(self):
            self.recs, self.state = [], "any"

        def snap(self):
            return ""

        def prepare(self):
            """the object tells its defaults from other values"""

        def folder(self):
            return fresh("f")

    def radii(n):
        edges = np.cumsum(nprng.integers(1, 9, 2 * n)) * 0.25
        return edges[::2].copy(), edges[1::2].copy()

    class Rings(World):
        def __init__(self):
            super().__init__()
            self.r = Ring(1.25, 2.5, 0.5, 30, 45)
            self.methods = {
                "Ring": (Ring, self.base, self.new_ctx),
                "Ring.set": (self.assign, self.base, self.own_ctx),
                "Ring.get_patch": (self.r.get_patch, lambda: dict(
                    x_shift=rng.choice([0, 1.5]), y_shift=-2.25,
                    face_color=rng.choice(["red", "k"])), nothing)}

        def base(self):
            inner = rng.choice([0.25, 1.0, 1.25])
            return dict(inner_radius=inner, outer_radius=inner + rng.choice(
                [0.25, 2.0]), transmission=rng.choice([0, 0.25, 1.0]),
                inclination=rng.choice([0, 45.5, 90]),
                tilt=rng.choice([-180, 0, 12.25, 180]))

        def new_ctx(self, **kw):
            return dict(inner=tenk(kw["inner_radius"]),
                        outer=tenk(kw["outer_radius"]))

        def own_ctx(self, **kw):
            return dict(inner=tenk(self.r.inner_radius),
                        outer=tenk(self.r.outer_radius))

        def assign(self, **kw):
            (name, value), = kw.items()
            setattr(self.r, name, value)

        def only(self, p, kw):
            """values that are admissible for the ring as it is"""
            if p == "inner_radius":
                kw[p] = float(self.r.outer_radius) - 0.125
            elif p == "outer_radius":
                kw[p] = float(self.r.inner_radius) + 0.125
            return {p: kw[p]}

        def snap(self):
            return ring_state(self.r)

    class Systems(World):
        def __init__(self, n):
            super().__init__()
            a, b = radii(n)
            self.s = RingSystem(1.5, a, b, nprng.integers(0, 5, n) / 4.0,
                                30, -20, logging_level=50)
            self.n = n
            s = self.s
            gaps = np.array([0, 9e-7, 1.1e-6, 0.05, 0.5])
            nprng.shuffle(gaps)
            edges = 1.0 + np.arange(6)
            self.near = RingSystem(1.5, edges, edges + 1 - np.append(gaps, 0),
                                   np.full(6, 0.5), 30, -20, logging_level=50)
            self.methods = {
                "RingSystem": (RingSystem, self.new, lambda **kw: dict(
                    radii=[len(kw["inner_radii"])])),
                "RingSystem.add_ring": (s.add_ring, self.add, self.ctx),
                "RingSystem.replace_ring": (s.replace_ring, self.replace,
                                            self.ctx),
                "RingSystem.remove_ring": (s.remove_ring, lambda: dict(
                    index=rng.randrange(s.get_num_rings())), self.ctx),
                "RingSystem.split_rings": (s.split_rings, lambda: dict(
                    num_divisions=rng.choice([2, nprng.integers(
                        1, 3, s.get_num_rings())])), self.ctx),
                "RingSystem.plot": (s.plot, lambda: dict(
                    ax=plt.gca(), x_shift=rng.choice([0, -2.5]), y_shift=1,
                    face_color="red"), nothing)}

        def new(self):
            n = rng.randrange(1, 5)
            a, b = radii(n)
            return dict(planet_radius=rng.choice([0, 1.5]), inner_radii=a,
                        outer_radii=b, transmissions=np.linspace(0, 1, n),
                        inclination=rng.choice([0, 45.5, 90]),
                        tilt=rng.choice([-180, 0, 180]),
                        logging_level=rng.choice([30, 50]))

        def add(self):
            n = self.s.get_num_rings()
            top = float(self.s.get_outer_radii()[-1])
            return dict(index=n, ring=Ring(top + 0.25, top + 0.5, 0.5, 3, 4))

        def replace(self):
            n = rng.randrange(self.s.get_num_rings())
            r = self.s.rings[n]
            return dict(index=n, ring=Ring(float(r.inner_radius), float(
                r.outer_radius), rng.choice([0, 1.0]), 7, 8))

        def ctx(self, **kw):
            n = self.s.get_num_rings()
            return dict(n=n * 10000, last=(n - 1) * 10000, rings=[n])

        def snap(self):
            return system_state(self.s) + axes_state()

        def ensure(self):
            """few rings, but some"""
            while self.s.get_num_rings() > 4:
                self.s.remove_ring(self.s.get_num_rings() - 1)
            while self.s.get_num_rings() < 2:
                self.s.add_ring(**self.add())

    def axes_state():
        if not plt.get_fignums():
            return ""
        ax = plt.gca()
        return repr([len(ax.patches), len(ax.lines), len(ax.images),
                     ax.get_xlim(), ax.get_ylim(), ax.get_title(),
                     ax.get_xlabel()])

    GRIDS = [(-0.5, 2, 3, -0.5, 2, 2, 3, 2), (0, 1.5, 2, 0, 2, 2, 2, 3),
             (0.25, 2, 2, -1, 2, 4, 4, 3), (0, 2, 3, 0.5, 1, 2, 2.5, 2)]

    class Parameters(World):
        def __init__(self):
            super().__init__()
            p = self.p = GridParameters(*rng.choice(GRIDS))
            d = self.d = GridDiagnostics(p)
            self.saved, self.saved_d = self.folder(), self.folder()
            p.save(self.saved)
            ny, nx = p.slice_shape
            for y in range(ny):
                for x in range(nx):
                    d.save_diagnostic(y, x, np.arange(3.0), np.ones(3) * x)
            d.save(self.saved_d)
            yx = self.ctx
            self.methods = {
                "GridParameters": (GridParameters, self.new, lambda **kw: {
                    k: tenk(kw[k]) for k in ("min_x", "max_x", "min_y",
                                             "max_y")}),
                "GridParameters.save": (p.save, self.dir, nothing),
                "GridParameters.load": (GridParameters.load, lambda: dict(
                    directory=self.saved), nothing),
                "GridDiagnostics": (GridDiagnostics, lambda: dict(
                    grid_parameters=p), nothing),
                "GridDiagnostics.get_diagnostic": (
                    d.get_diagnostic, self.point, yx),
                "GridDiagnostics.save_diagnostic": (
                    d.save_diagnostic, lambda: dict(
                        self.point(), fy=nprng.random(4).round(2),
                        disk_radius=nprng.random(4).round(2)),
                    lambda **kw: dict(self.ctx(), curve=[4])),
                "GridDiagnostics.save": (d.save, self.dir, nothing),
                "GridDiagnostics.load": (GridDiagnostics.load, lambda: dict(
                    directory=self.saved_d), nothing)}

        def new(self):
            a = rng.choice(GRIDS)
            return dict(zip(("min_x", "max_x", "num_x", "min_y", "max_y",
                             "num_y", "max_rf", "num_rf"), a))

        def dir(self):
            return dict(directory=self.folder())

        def point(self):
            ny, nx = self.p.slice_shape
            return dict(y=rng.randrange(ny), x=rng.randrange(nx))

        def ctx(self, **kw):
            ny, nx = self.p.slice_shape
            return dict(last_y=(ny - 1) * 10000, last_x=(nx - 1) * 10000)

        def snap(self):
            return parameters_state(self.p) + diagnostics_state(self.d,
                                                                self.p)

    class Properties(World):
        def __init__(self):
            super().__init__()
            # y is sliced by default: as many rows as the domain tells
            p = self.p = GridParameters(*rng.choice(GRIDS))
            self.shape = tuple(int(v) for v in p.grid_shape)
            q = self.q = GridProperty(GridPropertyName.TILT,
                                      GridPropertyUnit.DEGREE, self.data(), p)
            g = self.g = GridGradient(nprng.random(self.shape), p, 0.25)
            self.saved = self.folder()
            q.save(self.saved)
            ctx = self.ctx
            self.methods = {
                "GridProperty": (GridProperty, lambda: dict(
                    name=rng.choice(list(GridPropertyName)),
                    unit=rng.choice(list(GridPropertyUnit)),
                    data=self.data(), grid_parameters=p), ctx),
                "GridProperty.set_mask": (q.set_mask, lambda: dict(
                    mask=nprng.random(self.shape) < 0.3), ctx),
                "GridProperty.get_data": (q.get_data, self.flag, nothing),
                "GridProperty.set_contrast_parameters": (
                    q.set_contrast_parameters, lambda: dict(
                        vmin=rng.choice([-5, 0.25]), vmax=rng.choice([7, 90]),
                        color_map="plasma", num_colors=rng.choice([2, 9])),
                    nothing),
                "GridProperty.plot_slice": (q.plot_slice, lambda: dict(
                    self.slice(), ax=plt.gca(), **self.flag()), ctx),
                "GridProperty.plot_cube": (self.cube, lambda: dict(
                    axis=rng.randrange(3), coordinates=[(1.0, 0.5, 2.0)],
                    **self.flag()), nothing),
                "GridProperty.save": (q.save, self.dir, nothing),
                "GridProperty.load": (GridProperty.load, lambda: dict(
                    directory=self.saved, name=GridPropertyName.TILT,
                    unit=GridPropertyUnit.DEGREE), nothing),
                "GridGradient": (GridGradient, lambda: dict(
                    data=nprng.random(self.shape), grid_parameters=p,
                    position=rng.choice([-0.5, 0, 0.25])), ctx),
                "GridGradient.determine_mask": (g.determine_mask, lambda: dict(
                    measured_gradient=rng.choice([0, 0.25]),
                    orbital_scale=rng.choice([0.5, 1]),
                    transmission_change=rng.choice([0.5, 1, None]),
                    measured_error=rng.choice([0.25, 0.0])), nothing),
                "GridPropertyViewer": (GridPropertyViewer, lambda: dict(
                    self.slice(), ax=plt.gca(), grid_property=q,
                    frozen=rng.random() < 0.5,
                    coordinates=[(1.0, 0.5, 2.0)], **self.flag()), ctx)}

        def prepare(self):
            self.ensure_data()

        def ensure_data(self):
            self.data_ = self.q.get_data(False)
            if not np.any(np.isnan(self.q.get_data(True)) &
                          ~np.isnan(self.data_)):
                mask = nprng.random(self.shape) < 0.5
                mask.reshape(-1)[0] = True
                self.q.set_mask(mask)

        def data(self):
            data = nprng.integers(-9, 50, self.shape) * 0.25
            data[nprng.random(self.shape) < 0.2] = np.nan
            data.reshape(-1)[0] = 1.0
            return data

        def cube(self, **kw):
            keep, plt.show = plt.show, lambda *a, **k: None
            plt.rcParams["figure.figsize"] = (3, 2)
            before = plt.get_fignums()
            try:
                self.q.plot_cube(**kw)
            finally:
                plt.show = keep
                for n in plt.get_fignums():
                    if n not in before:
                        plt.close(n)

        def flag(self):
            return dict(masked=rng.random() < 0.5)

        def dir(self):
            return dict(directory=self.folder())

        def slice(self):
            axis = rng.randrange(3)
            # an index that any axis has
            return dict(axis=axis, index=rng.randrange(2))

        def ctx(self, **kw):
            axis = kw.get("axis")
            known = isinstance(axis, (int, np.integer)) and 0 <= axis <= 2
            return dict(grid=list(self.shape), last_slice=(
                self.shape[axis] - 1) * 10000 if known else 0)

        def snap(self):
            return parameters_state(self.p) + property_state(self.q) + \
                gradient_state(self.g) + axes_state()

    class Grids(World):
        def __init__(self, state):
            super().__init__()
            self.state = state
            self.params = GridParameters(*rng.choice(GRIDS))
            res, self.g = call(ShallotGrid, self.params, 150,
                               logging_level=50, keep_diagnostics=True)
            if self.g is None:
                raise RuntimeError("grid not built: " + res)
            g = self.g
            self.saved = self.folder()
            g.save(self.saved)
            m = self.methods = {
                "ShallotGrid": (ShallotGrid, lambda: dict(
                    parameters=self.params, num_fxfy=rng.choice([150, 180]),
                    logging_level=rng.choice([40, 50]),
                    keep_diagnostics=rng.random() < 0.5,
                    intermittent_saving=rng.random() < 0.5), nothing),
                "ShallotGrid.save": (g.save, lambda: dict(
                    directory=self.folder()), nothing),
                "ShallotGrid.load": (ShallotGrid.load, lambda: dict(
                    directory=self.saved, logging_level=rng.choice([40, 50])),
                    nothing),
                "ShallotGrid.set_eclipse_parameters": (
                    g.set_eclipse_parameters, lambda: dict(
                        eclipse_duration=rng.choice([2.0, 4]),
                        transverse_velocity=rng.choice([50.0, 100]),
                        limb_darkening=rng.choice([0, 0.5, 1.0])), nothing),
                "ShallotGrid.add_gradients": (g.add_gradients, self.new,
                                              lambda **kw: dict(
                                                  new=[self.many])),
                "ShallotGrid.remove_gradients": (
                    g.remove_gradients, lambda: dict(indices=np.array(
                        [rng.randrange(len(self.positions()))])), self.ctx),
                "ShallotGrid.update_gradient_scaling": (
                    g.update_gradient_scaling, lambda: dict(
                        transverse_velocity=rng.choice([50.0, 80]),
                        limb_darkening=rng.choice([0, 0.5, 1.0]),
                        transmission_changes=np.linspace(
                            0.5, 1, len(self.positions()))), self.ctx),
                "ShallotGrid.extract_solutions": (
                    g.extract_solutions, lambda: dict(num_solutions=min(
                        2, self.ctx()["candidates"] // 10000)), self.ctx),
                "ShallotGrid.generate_hill_radius_mask": (
                    g.generate_hill_radius_mask, lambda: dict(
                        hill_radius=rng.choice([50, 9.5])), nothing),
                "ShallotGrid.determine_closest_grid_point": (
                    g.determine_closest_grid_point, lambda: dict(
                        disk_radius=rng.choice([0, 1.5]),
                        inclination=rng.choice([0, 45.5, 90]),
                        tilt=rng.choice([-180, 7.5, 180]),
                        impact_parameter=rng.choice([-1, 0.5]),
                        masked=False), nothing),
                "ShallotGrid.get_grid_point_data": (
                    g.get_grid_point_data, lambda: dict(zip(
                        ("y_index", "x_index", "rf_index"),
                        [rng.randrange(n) for n in g.parameters.grid_shape]),
                        masked=rng.random() < 0.5), self.ctx)}
            for name in ("get_disk_radius", "get_inclination", "get_tilt",
                         "get_fx_map", "get_fy_map", "get_diagnostic_map",
                         "get_gradients", "get_gradient_fit"):
                m["ShallotGrid." + name] = (getattr(g, name), lambda: dict(
                    masked=rng.random() < 0.5,
                    property_masked=rng.random() < 0.5), nothing)

        def new(self):
            self.many = n = rng.randrange(2, 4)
            return dict(times=nprng.integers(-4, 5, n) * 0.25,
                        light_curve_gradients=nprng.integers(0, 3, n) * 0.25,
                        light_curve_gradient_errors=np.linspace(0.25, 1, n),
                        transmission_changes=np.linspace(0.5, 1, n))

        def positions(self):
            return self.g.get_gradients()[0] if self.g.gradients else []

        def ctx(self, **kw):
            ny, nx, nr = (int(v) for v in self.g.parameters.grid_shape)
            c = dict(last_y=ny - 1, last_x=nx - 1, last_rf=nr - 1)
            n = len(self.positions())
            fit = self.g.get_gradient_fit()
            c.update(last_gradient=n - 1, shown=int(np.sum(
                ~self.g.get_combined_mask())), candidates=0 if fit is None
                else int(np.sum(~np.isnan(fit))))
            return dict({k: v * 10000 for k, v in c.items()}, gradients=[n])

        def ensure(self):
            """the grid is in its state"""
            g = self.g
            g.generate_hill_radius_mask(1000.0)
            if self.state == "plain":
                return
            if self.state == "eclipse":
                g.set_eclipse_parameters(2.0, 50.0, 0.5)
                return
            if not 2 <= len(self.positions()) <= 5:
                g.set_eclipse_parameters(2.0, 50.0, 0.5)
                g.add_gradients(**self.new())
            if self.state == "fit" and g.get_gradient_fit() is None:
                g.determine_gradient_fit(rng.random() < 0.5)

        def prepare(self):
            """every map has a mask of its own, the combined one hides
            something and shows something"""
            g = self.twin = deepcopy(self.g)
            radii = np.sort(g.get_disk_radius(False, False), axis=None)
            radii = radii[~np.isnan(radii)]
            if len(radii):
                g.generate_hill_radius_mask(float(radii[len(radii) // 2]))
            for q in (g.inclination, g.tilt, g.fx_map, g.fy_map,
                      g.diagnostic_map):
                if q is not None:
                    q.set_mask(nprng.random(g.parameters.grid_shape) < 0.2)
            for q in g.gradients or []:
                q.set_mask(nprng.random(g.parameters.grid_shape) < 0.2)

        def snap(self):
            fit = self.g.get_gradient_fit(False, False)
            return repr(grid_state(self.g)) + str(self.g) + (
                "" if fit is None else digest(fit))

    # ----------------------------------------------------- values of a domain
    def other(value):
        """an object of another class"""
        if isinstance(value, GridPropertyName):
            return GridPropertyUnit.DEGREE
        if isinstance(value, GridPropertyUnit):
            return GridPropertyName.TILT
        if isinstance(value, Ring):
            return GridPropertyName.TILT
        return Ring(1.0, 2.0, 0.5)

    def concrete(v, base, ctx, name_):
        k = v["k"]
        if k in ("int", "float", "element"):
            kind, name = v["at"]
            q = (name if kind == "is" else ctx[name]) + v["dq"]
            if k == "int":
                # levels of the logging module are Python's
                integer = int if name_ == "logging_level" else numbers
                if q % 10000:       # no integer is at the bound
                    q = (q // 10000 + (v["dq"] > 0)) * 10000
                return integer(q // 10000)
            x = q / 10000
            if v["e"]:
                x = float(np.nextafter(x, np.inf * v["e"]))
            if k == "float":
                return real(x)
        simple = dict(none=None, string="7", list=[1], object=object(),
                      array0=np.array(1.0), bool=rng.random() < 0.5,
                      unsigned=np.uint8(1), nan=rng.choice(
                          [np.nan, np.float32("nan")]), half=1.5,
                      true=True, false=False, zero=0, one=1,
                      npbool=np.bool_(True), bytes=b"x")
        simple["inf"], simple["-inf"] = np.inf, -np.inf
        if k == "base":
            return base
        if isinstance(base, list):
            simple["list"] = []
        if k == "base":
            return base
        if k in simple:
            return simple[k]
        if k == "class":
            return type(base)
        if k == "other":
            return other(base)
        if not isinstance(base, np.ndarray):
            return None
        a = base.copy()
        if k == "aslist":
            return a.tolist()
        if k == "dtype":
            return a.astype(rng.choice(
                ["float32", "float64", "int64", "int32", "object",
                 "complex128"]))
        if k == "more":
            return a[None]
        if k == "fewer":
            return a[0] if a.ndim > 1 else np.array(a[0])
        if k == "short":
            return a[:-1]
        if k == "long":
            return np.concatenate((a, a[-1:]))
        at = rng.randrange(len(a))
        a = a.astype(float) if k in ("elnan", "elinf", "el-inf") else a
        a[at] = dict(elnan=np.nan, elinf=np.inf).get(
            k, x if k == "element" else -np.inf)
        return a

    def attempt(w, m, kw, p, ctx, base):
        pre, files = w.snap(), tree(top)
        before = {n: copy(v) for n, v in kw.items()}
        box = []

        def run():
            try:
                return w.methods[m][0](**kw)
            except Exception as error:
                box.append(str(error))
                raise
        res, _ = call(run)
        words = sorted(set(re.findall(r"[A-Za-z_]\w*", " ".join(box))))[:60]
        v = describe(kw[p])
        v["plain"] = base
        w.recs.append(dict(
            op="call", m=m, p=p, v=v, base=base, ctx=ctx, res=res, told=words,
            pre=pre, post=w.snap(), args=all(
                copy(x) == before[n] for n, x in kw.items()),
            files=tree(top) == files, shown=repr(kw[p])[:80]))

    # ------------------------------------------------------ left out arguments
    def levels(o):
        return repr([[v.getEffectiveLevel()] + [h.level for h in v.handlers]
                     for v in vars(o).values()
                     if isinstance(v, logging.Logger)])

    def patch_text(p):
        return digest(p.get_path().vertices) + repr(
            [p.get_facecolor(), p.get_edgecolor(), p.get_alpha()])

    def drawn(ax):
        images = [[i.get_array().shape, digest(np.ma.filled(
            i.get_array().astype(float), np.nan)), i.get_clim(),
            i.get_extent()] for i in ax.images]
        lines = [digest(np.asarray(l.get_xydata(), float)) for l in ax.lines]
        return repr([[patch_text(p) for p in ax.patches], images, lines,
                     [digest(np.asarray(c.get_offsets(), float))
                      for c in ax.collections],
                     ax.get_xlim(), ax.get_ylim(), ax.get_title(),
                     ax.get_xlabel(), ax.get_ylabel()])

    def text(x):
        """what a call returned"""
        if isinstance(x, (tuple, list)):
            return repr([text(v) for v in x])
        if isinstance(x, np.ndarray):
            return digest(x)
        return repr(x) if x is None or isinstance(
            x, (str, bool, int, float, np.generic)) else ""

    MADE = []
    sys.addaudithook(lambda event, args: MADE.append(args)
                     if event == "os.mkdir" else None)

    def on_axes(fn, kw, more=lambda out: ""):
        """a call that draws, with two axes of which the first is current"""
        fig, axes = plt.subplots(1, 2, figsize=(3, 2))
        plt.sca(axes[0])
        named = {"current axes": axes[0], "other axes": axes[1]}
        kw = {n: named[v] if isinstance(v, str) and v in named else v
              for n, v in kw.items()}
        out = fn(**kw)
        return "".join(drawn(ax) for ax in axes) + more(out)

    def shown_cube(q, kw):
        keep, plt.show = plt.show, lambda *a, **k: None
        plt.rcParams["figure.figsize"] = (3, 2)
        before = plt.get_fignums()
        try:
            q.plot_cube(**kw)
            return "".join(drawn(ax) for n in plt.get_fignums()
                           if n not in before for ax in plt.figure(n).axes)
        finally:
            plt.show = keep

    def viewed(kw):
        def scrolled(v):
            """what it shows after the wheel was turned"""
            event = types.SimpleNamespace(button="up", step=1)
            res, _ = call(v.onscroll, event)
            return res + drawn(v.ax)
        return on_axes(GridPropertyViewer, kw, scrolled)

    def came(w, m, kw):
        """all that can be seen of a call, made on copies"""
        del MADE[:]
        if m == "Ring":
            return ring_state(Ring(**kw))
        if m == "Ring.get_patch":
            return patch_text(w.r.get_patch(**kw))
        if m == "RingSystem":
            s = RingSystem(**kw)
            return system_state(s) + levels(s)
        if m == "RingSystem.merge_rings":
            s = deepcopy(w.near)
            s.merge_rings(**kw)
            return system_state(s)
        if m == "RingSystem.plot":
            return on_axes(w.s.plot, kw)
        if m == "GridProperty.plot_slice":
            return on_axes(w.q.plot_slice, kw)
        if m == "GridPropertyViewer":
            return viewed(kw)
        if m == "GridProperty.plot_cube":
            return shown_cube(w.q, kw)
        if m == "GridProperty.get_data":
            return digest(w.q.get_data(**kw))
        if m == "GridProperty.set_contrast_parameters":
            q = deepcopy(w.q)
            q.set_contrast_parameters(**kw)
            return property_state(q)
        if m == "GridGradient.determine_mask":
            g = deepcopy(w.g)
            g.determine_mask(**kw)
            return gradient_state(g)
        if m in ("ShallotGrid", "ShallotGrid.load"):
            g = ShallotGrid(**kw) if m == "ShallotGrid" else \
                ShallotGrid.load(**kw)
            return repr([grid_state(g), str(g), levels(g), bool(MADE)])
        g = deepcopy(w.twin)
        out = getattr(g, m.split(".")[1])(**kw)
        fit = g.get_gradient_fit(False, False)
        return text(out) + repr(grid_state(g)) + str(g) + (
            "" if fit is None else digest(fit))

    def omit(w, e):
        """a call without an argument, with its default, with another value"""
        m, p = e["m"], e["p"]
        if m == "RingSystem.merge_rings":
            base = dict
        elif m == "ShallotGrid.determine_gradient_fit":
            base = dict
        else:
            base = w.methods[m][1]
        kw = base()
        while e["other"] == "base" and (
                kw[p] is None or isinstance(kw[p], (int, float)) and
                kw[p] == 0):
            kw = base()
        if m.endswith("update_gradient_scaling"):   # others than it has
            kw["transmission_changes"] = kw["transmission_changes"] * 0.9
        w.prepare()
        named = dict(zero=0, two=2, none=None, true=True, false=False,
                     black="black", red="red", viridis="viridis",
                     info=20, debug=10, millionth=1e-6, tenth=0.1)
        if isinstance(w, Properties):
            named.update(least=float(np.nanmin(w.data_)),
                         greatest=float(np.nanmax(w.data_)))
        if p == "ax":
            kw.pop("ax")
        elif "ax" in kw:
            kw["ax"] = "current axes"
        rest = {n: v for n, v in kw.items() if n != p}
        before = {n: copy(v) for n, v in rest.items()}

        def value(name):
            return kw[p] if name == "base" else named.get(name, name)

        def run(kw):
            res, out = call(came, w, m, kw)
            plt.close("all")
            return res + digest_text(out or "")
        w.recs.append(dict(
            op="omit", m=m, p=p, v=e["default"], a=run(rest),
            b=run({**rest, p: value(e["default"])}),
            c=run({**rest, p: value(e["other"])}),
            args=all(copy(v) == before[n] for n, v in rest.items()),
            shown=repr(rest)[:200]))

    OF_ARRAYS = {"aslist", "dtype", "more", "fewer", "short", "long",
                 "elnan", "elinf", "el-inf", "element"}

    def session(w, items):
        for e in items:
            m, p = e["m"], e["p"]
            if hasattr(w, "ensure"):
                w.ensure()
            if e["v"]["k"] == "omit":
                for _ in range(1 if quick else 3):
                    omit(w, e)
                    # until the other value makes a difference
                    for _ in range(9):
                        last = w.recs[-1]
                        if not last["a"] == last["b"] == last["c"]:
                            break
                        w.recs.pop()
                        omit(w, e)
                continue
            fn, base, ctx = w.methods[m]
            kw = base()
            while e["v"]["k"] in OF_ARRAYS and \
                    not isinstance(kw[p], np.ndarray):
                kw = base()
            if m == "Ring.set":
                kw = w.only(p, kw)
            c = ctx(**kw)
            value = concrete(e["v"], kw[p], c, p)
            if e["v"]["k"] != "base":
                attempt(w, m, {**kw, p: value}, p, c, False)
            if hasattr(w, "ensure"):
                w.ensure()
            kw = base()
            if m == "Ring.set":
                kw = w.only(p, kw)
            attempt(w, m, kw, p, ctx(**kw), True)
            # as many files as needed
            for name in os.listdir(top):
                path = os.path.join(top, name)
                if path not in (getattr(w, "saved", ""),
                                getattr(w, "saved_d", "")):
                    shutil.rmtree(path) if os.path.isdir(path) else \
                        os.remove(path)
            plt.close("all")
        for r in w.recs:        # states are only compared
            if r["op"] == "omit":
                continue
            same = r["pre"] == r["post"]
            r["pre"] = digest_text(r["pre"])
            r["post"] = r["pre"] if same else digest_text(r["post"])
        return dict(what="%s (%s)" % (type(w).__name__, w.state),
                    recs=w.recs, w=len(w.recs))

    def digest_text(text):
        import hashlib
        return hashlib.sha1(text.encode()).hexdigest()[:20]

    groups = {}
    seen = set()
    for e in edges["calls"]:
        key = repr(sorted(e.items(), key=str))
        if key not in seen:
            seen.add(key)
            groups.setdefault(e["m"].split(".")[0], []).append(e)
    worlds = [(("Ring",), lambda s: Rings()),
              (("RingSystem",), lambda s: Systems(rng.randrange(1, 5))),
              (("GridParameters", "GridDiagnostics"), lambda s: Parameters()),
              (("GridProperty", "GridGradient", "GridPropertyViewer"),
               lambda s: Properties()),
              (("ShallotGrid",), Grids)]
    for _ in range(1 if quick else 8):
        for classes, make in worlds:
            items = [e for c in classes for e in groups.get(c, [])]
            rng.shuffle(items)
            states = [None] if classes != ("ShallotGrid",) else [
                "plain", "eclipse", "gradients", "fit"]
            parts = {s: [] for s in states}
            for e in items:
                parts[e["state"] if e["state"] in parts else
                      rng.choice(states)].append(e)
            for s in states:
                part = parts[s]
                for k in range(0, len(part), 40):
                    yield session(make(s), part[k:k + 40])
