"""C28: drawn slices: where the values are and which colours they have."""
import random
import re

TRACE_MODULE = "T_Display"
NAN = -1000000000


def models(prop, tier):
    n = 3 if tier == "quick" else 4
    return [dict(module="MC_Display", name="draw", edges=True, workers=1,
                 cfg="SPECIFICATION Spec\nCONSTANTS MaxLen = %d\n"
                     "INVARIANT Inv\nACTION_CONSTRAINT Emit\n" % n)]


def assumptions(prop):
    return ["axes with at least two slices; whole-numbered data and limits",
            "a value on the border of two colours may have either",
            "pixels are sampled where a cell is at least 8 pixels wide and high"]


def relevant(prop, sessions):
    return sum(r["op"] == "draw" for s in sessions for r in s["recs"])


def corruptors(prop):
    def draw(s, cond=lambda v: True):
        return next((r for r in s["recs"] if r["op"] == "draw" and
                     r["res"] == "ok" and cond(r["view"])), None)

    def place(s):
        r = draw(s, lambda v: v["seen"] != v["seen"][::-1])
        if r:
            r["view"]["seen"].reverse()
            return s

    def radius(s):
        r = draw(s, lambda v: v["axis"] < 2 and v["ticks"])
        if r:
            r["view"]["ticks"][0][1] += 20000
            return s

    def colour(s):
        def seen(x):
            return len(x["colours"]) == 1 and not x["blank"]
        r = draw(s, lambda v: any(seen(x) for x in v["values"]))
        if r:
            x = next(x for x in r["view"]["values"] if seen(x))
            x["colours"][0] = 1000
            return s

    def pixel(s):
        r = draw(s, lambda v: any(x["blank"] for x in v["pixels"]))
        if r:
            for x in r["view"]["pixels"]:
                x["blank"] = not x["blank"]
            return s

    def own(s):
        r = draw(s)
        if r:
            r["view"]["own"] = False
            return s

    def limits(s):
        r = draw(s, lambda v: True)
        if r:
            r["post"]["vmin"] -= 1
            return s
    return [("place", place), ("radius", radius), ("colour", colour),
            ("pixel", pixel), ("own", own), ("limits", limits)]


def drive(prop, seed, tier, edges):
    import numpy as np
    import matplotlib.pyplot as plt
    from matplotlib.backend_bases import MouseEvent
    from GridParameters import GridParameters
    from GridProperty import GridProperty
    from GridPropertyName import GridPropertyName
    from GridPropertyUnit import GridPropertyUnit
    from obs import call
    rng = random.Random(seed * 1000 + 28)
    nprng = np.random.default_rng(seed * 1000 + 28)
    quick = tier == "quick"

    def integer(v):
        return NAN if v is None or v != v else int(round(float(v)))

    class World:
        def __init__(self, what, big=False):
            self.what, self.recs = what, []
            top = 9 if big else 4
            ny, nx = rng.randrange(2, top + 1), rng.randrange(2, top + 1)
            nr = rng.randrange(2, 4 if not big else 6)
            step = [rng.choice([0.25, 0.3, 1.0]) for _ in range(3)]
            if what == "many radii":
                nr, step[2] = rng.randrange(8, 15), rng.choice([0.93, 1.37])
            elif what == "large slices":
                ny, nx, nr = rng.randrange(20, 25), rng.randrange(21, 27), 2
            lo = [rng.choice([0, -0.5, -1.75, 0.4]) for _ in range(2)]
            self.p = GridParameters(
                lo[1], lo[1] + step[1] * (nx - 1), nx,
                lo[0], lo[0] + step[0] * (ny - 1), ny,
                1 + step[2] * (nr - 1), nr)
            self.shape = (ny, nx, 2 * nr - 1)
            size = int(np.prod(self.shape))
            data = nprng.integers(-40, 400, size) * 1.0
            if rng.random() < 0.5:
                data = nprng.permutation(size) * 1.0
            data[nprng.random(size) < 0.2] = np.nan
            if rng.random() < 0.1:
                data[:] = np.nan
            elif rng.random() < 0.1:
                data[~np.isnan(data)] = 7.0
            if what == "large slices":
                data = data * 37 + 5001
            self.data = data.reshape(self.shape)
            if what == "empty slices":
                for axis in range(3):
                    at = [slice(None)] * 3
                    at[axis] = rng.randrange(self.shape[axis])
                    self.data[tuple(at)] = np.nan
            self.mask = np.zeros(self.shape, dtype=bool)
            res, self.prop = call(
                GridProperty, rng.choice(list(GridPropertyName)),
                rng.choice(list(GridPropertyUnit)), self.data.copy(), self.p)
            if self.prop is None:
                raise RuntimeError("property not made: " + res)
            self.record("new", "ok", self.args(), data=[
                integer(v) for v in self.data.reshape(-1)])

        def args(self, **kw):
            return {**dict(vmin=[], vmax=[], map=[], n=[], masked=False,
                           index=0), **kw}

        def record(self, op, res, a, view=None, data=(), mask=()):
            q = self.prop
            self.recs.append(dict(
                op=op, res=res, a=a, shape=list(self.shape), data=list(data),
                mask=list(mask), view=view or {}, post=dict(
                    vmin=integer(q.vmin), vmax=integer(q.vmax),
                    map=str(q.color_map), n=int(q.num_colors))))

        # ---- changes
        def contrast(self, kind):
            a = {}
            if kind in ("some", "all"):
                lo = rng.choice([-60, 0, 5, 100])
                a["vmin"] = lo
                if kind == "all" or rng.random() < 0.4:
                    a["vmax"] = lo + rng.choice([1, 10, 37, 300, 1000])
                if kind == "all" or rng.random() < 0.5:
                    a["color_map"] = rng.choice(["twilight", "viridis",
                                                 "plasma", "gray"])
                if kind == "all" or rng.random() < 0.5:
                    a["num_colors"] = rng.choice([2, 3, 7, 11, 64, 300])
                if "vmax" not in a and not np.isnan(self.data).all():
                    # limits in order, as matplotlib wants them
                    a["vmin"] = int(np.nanmax(self.data)) - rng.choice(
                        [1, 5, 100])
                if rng.random() < 0.3:
                    del a["vmin"]
                    if "vmax" in a and not np.isnan(self.data).all():
                        a["vmax"] = int(np.nanmin(self.data)) + 50
            res, _ = call(self.prop.set_contrast_parameters, **a)
            self.record("contrast", res, self.args(
                vmin=[a["vmin"]] if "vmin" in a else [],
                vmax=[a["vmax"]] if "vmax" in a else [],
                map=[a["color_map"]] if "color_map" in a else [],
                n=[a["num_colors"]] if "num_colors" in a else []))

        def bad(self, kind):
            if np.isnan(self.data).all() and kind in ("vmin", "vmax"):
                kind = "n"
            good = dict(vmin=3, vmax=rng.choice([777, 12]),
                        color_map="plasma", num_colors=5)
            wrong = dict(vmin=("vmin", "low"), vmax=("vmax", [9]),
                         map=("color_map", 3),
                         n=("num_colors", rng.choice([1, 0, 2.5, "many"])))
            a = {k: v for k, v in good.items() if rng.random() < 0.7}
            a[wrong[kind][0]] = wrong[kind][1]
            res, _ = call(self.prop.set_contrast_parameters, **a)
            self.record("bad", res, self.args())

        def set_mask(self):
            mask = nprng.random(self.shape) < rng.choice([0.1, 0.5, 0.9])
            res, _ = call(self.prop.set_mask, mask.copy())
            if res == "ok":
                self.mask = mask
            self.record("mask", res, self.args(), mask=[
                k + 1 for k, m in enumerate(mask.reshape(-1)) if m])

        # ---- drawings
        def places(self, axis):
            """the places of the rows and columns on the axes"""
            dy, dx, rf = self.p.get_vectors()
            half = len(rf) // 2
            unrolled = np.array([rf[0] - v if k <= half else
                                 rf[0] - 2 + v for k, v in enumerate(rf)])
            return [(dx, unrolled), (dy, unrolled), (dy, dx)][axis]

        def palette(self, name, n):
            return np.array(plt.get_cmap(name, n)(range(n)))

        def look(self, ax, image, axis, index, own, pixels):
            q = self.prop
            rows, cols = self.places(axis)
            fig = ax.figure
            if rng.random() < 0.5:
                fig.canvas.draw()
            else:
                fig.draw_without_rendering()
            # the value under the pointer
            seen = []
            for i, v in enumerate(rows):
                line = []
                # a hair towards the middle of the axis
                y = v + (rows[-1] + rows[0] - 2 * v) * 1e-7
                for j, h in enumerate(cols):
                    x = h + (cols[-1] + cols[0] - 2 * h) * 1e-7
                    px, py = ax.transData.transform((x, y))
                    event = MouseEvent("motion_notify_event", fig.canvas,
                                       px, py)
                    # the event has whole pixels only
                    event.x, event.y = px, py
                    value = image.get_cursor_data(event)
                    if value is None:
                        line.append(NAN - 1)
                    elif np.ma.is_masked(value) or value != value:
                        line.append(NAN)
                    else:
                        line.append(integer(value))
                seen.append(line)
            palette = self.palette(q.color_map, q.num_colors)

            def colours(rgba, tol):
                return [k for k, c in enumerate(palette)
                        if np.abs(c[:3] - rgba[:3]).max() <= tol]
            values = []
            arr = np.ma.masked_invalid(np.ma.filled(np.ma.asarray(
                image.get_array()).astype(float), np.nan))
            flat = list(dict.fromkeys(
                NAN if m else float(v) for v, m in zip(
                    np.ma.getdata(arr).reshape(-1),
                    np.ma.getmaskarray(arr).reshape(-1))))
            for v in flat[:12]:
                one = np.ma.masked_invalid([np.nan if v == NAN else v])
                rgba = np.array(image.cmap(image.norm(one)))[0]
                values.append(dict(v=integer(v), blank=bool(rgba[3] == 0),
                                   colours=colours(rgba, 1e-9)))
            spots = []
            if pixels:
                fig.canvas.draw()
                buf = np.asarray(fig.canvas.buffer_rgba())
                tall = buf.shape[0]
                # the middle of each cell, from the extent of the axes
                n, m = len(rows), len(cols)
                for i in range(n):
                    for j in range(m):
                        y = rows[0] + (i + 0.5) * (rows[-1] - rows[0]) / n
                        x = cols[0] + (j + 0.5) * (cols[-1] - cols[0]) / m
                        px, py = ax.transData.transform((x, y))
                        qx, qy = ax.transData.transform(
                            (x + (cols[-1] - cols[0]) / m,
                             y + (rows[-1] - rows[0]) / n))
                        if min(abs(qx - px), abs(qy - py)) < 8:
                            continue
                        rgb = buf[tall - 1 - int(py), int(px)][:3] / 255.0
                        spots.append(dict(
                            i=i + 1, j=j + 1,
                            blank=bool(np.abs(rgb - [1, 0, 1]).max() < 1e-9),
                            colours=colours(rgb, 1.01 / 255)))
            ticks = []
            if axis != 2:
                for tick, label in zip(ax.get_xticks(), ax.get_xticklabels()):
                    text = label.get_text().replace("\u2212", "-")
                    if -1e-9 <= tick <= cols[-1] + 1e-9:
                        ticks.append([round(float(tick) * 1e6), round(
                            float(text) * 1e6) if re.match(
                                r"^-?[0-9.]+$", text) else -10 ** 9])
            rf = self.p.get_vectors()[2]
            return dict(axis=axis, index=index, seen=seen,
                        rows=ax.get_ylabel(), cols=ax.get_xlabel(),
                        ticks=ticks, range=round(float(rf[0] - 1) * 1e6),
                        values=values, pixels=spots, own=bool(own))

        def index_of(self, ax, axis):
            """the slice that the title tells"""
            m = re.search(r"= (-?[0-9.]+)( - (horizontal|vertical))?$",
                          ax.get_title())
            vector = self.p.get_vectors()[axis]
            fits = [k for k, v in enumerate(vector)
                    if m and "%.4f" % v == m.group(1)]
            if axis == 2 and m:
                half = len(vector) // 2
                fits = [k for k in fits if (
                    "horizontal" if k < half else "vertical" if k > half
                    else None) == m.group(3)]
            return fits[0] if len(fits) == 1 else -1

        def draw(self, axis, where, pixels):
            plt.close("all")
            fig, axes = plt.subplots(1, 2, figsize=(6, 3), dpi=80)
            ax = axes[rng.randrange(2)]
            other = axes[0] if ax is axes[1] else axes[1]
            plt.sca(ax if where == "current" else rng.choice(list(axes)))
            for x in axes:      # pixels that nothing is drawn over
                x.tick_params(length=0)
                x.set_facecolor((1, 0, 1))
            index = rng.randrange(self.shape[axis])
            masked = rng.random() < 0.6
            args = dict(masked=masked)
            if where == "given":
                args["ax"] = ax
            res, value = call(self.prop.plot_slice, axis, index, **args)
            a = self.args(masked=masked, index=index)
            view = {}
            if res == "ok":
                out, image = value
                own = out is ax and image.axes is ax and \
                    not other.images and len(ax.images) == 1
                view = self.look(ax, image, axis, self.index_of(ax, axis),
                                 own, pixels)
            self.record("draw", res, a, view)
            plt.close("all")

        def cube(self, axis):
            plt.close("all")
            plt.rcParams["figure.figsize"] = (4, 3)
            masked = rng.random() < 0.6
            n = self.shape[axis]
            moves = [rng.random() < rng.choice([0.2, 0.8])
                     for _ in range(rng.randrange(0, n + 2))]
            if self.what == "empty slices":      # all of them
                moves = [True] * (n - 1 - n // 2) + [False] * (n - 1)
            found = []

            def show(*args, **kw):
                fig = plt.gcf()
                ax = next(x for x in fig.axes if x.get_title())
                index = n // 2
                for up in [None] + moves:
                    if up is not None:
                        event = MouseEvent("scroll_event", fig.canvas, 9, 9,
                                           button="up" if up else "down",
                                           step=1 if up else -1)
                        fig.canvas.callbacks.process("scroll_event", event)
                        index += (1 if index < n - 1 else 0) if up else \
                            (-1 if index > 0 else 0)
                    view = self.look(ax, ax.images[0], axis,
                                     self.index_of(ax, axis), True, False)
                    found.append((index, view))
            keep, plt.show = plt.show, show
            try:
                res, _ = call(self.prop.plot_cube, axis=axis, masked=masked)
            finally:
                plt.show = keep
            for index, view in found:
                self.record("draw", "ok", self.args(masked=masked,
                                                    index=index), view)
            if not found or res != "ok":
                self.record("draw", res if res != "ok" else "NotShown",
                            self.args())
            plt.close("all")

    def history(what, events, big=False):
        w = World(what, big)
        for k, e in enumerate(events):
            if e["op"] == "contrast":
                w.contrast(e["kind"])
            elif e["op"] == "bad":
                w.bad(e["kind"])
            elif e["op"] == "mask":
                w.set_mask()
            elif e["op"] == "draw":
                w.draw(e["axis"], e["kind"], rng.random() < 0.4)
            elif e["op"] == "cube":
                w.cube(e["axis"])
        return dict(what=what, recs=w.recs, w=sum(
            4 if r["op"] == "draw" else 1 for r in w.recs))

    items = [h for h in edges["draw"]
             if any(e["op"] in ("draw", "cube") for e in h)]
    for h in rng.sample(items, min(len(items), 60 if quick else 1200)):
        yield history("model history", h)
    for _ in range(8 if quick else 150):
        events = [dict(op=rng.choice(["contrast", "bad", "mask", "draw",
                                      "draw", "cube"]),
                       axis=rng.randrange(3)) for _ in range(6)]
        for e in events:
            e["kind"] = dict(
                contrast=rng.choice(["default", "some", "all"]),
                bad=rng.choice(["vmin", "vmax", "map", "n"]), mask="m",
                draw=rng.choice(["given", "current"]), cube="c")[e["op"]]
        yield history("random history", events, big=True)
    for what in ("many radii", "empty slices", "large slices"):
        for _ in range(2 if quick else 12):
            events = [dict(op="draw", axis=axis, kind="given")
                      for axis in rng.sample(range(3), 3)]
            if what != "large slices":
                events.append(dict(op="cube", axis=rng.randrange(3)))
            yield history(what, events, big=True)
