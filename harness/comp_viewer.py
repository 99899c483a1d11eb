"""C12: the viewer under scroll histories."""
import math
import random
import re

TRACE_MODULE = "T_Viewer"


def models(prop, tier):
    n = 5 if tier == "quick" else 7
    return [dict(module="MC_Viewer", name="scrolls", edges=True, workers=1,
                 cfg="SPECIFICATION Spec\nCONSTANTS MaxN = 5\nMaxLen = %d\n"
                 "INVARIANT Inv\nPROPERTY Step\nACTION_CONSTRAINT Emit\n" % n)]


def assumptions(prop):
    return ["axes with at least two slices",
            "coordinates are never at exactly a third of a grid step",
            "the in-plane marker position is checked in full for radius "
            "slices and along the vertical axis for the other slices"]


def corruptors(prop):
    def scroll(s, cond=lambda r: True):
        return next((r for r in s["recs"] if r["op"] == "scroll" and
                     r["res"] == "ok" and cond(r)), None)

    def image(s):
        r = scroll(s, lambda r: len(r["post"]["img"]) == 1)
        if r:
            r["post"]["img"][0] += 1
            return s

    def half(s):
        r = scroll(s, lambda r: r["post"]["half"] == "vertical")
        if r:
            r["post"]["half"] = "horizontal"
            return s

    def marker(s):
        r = scroll(s, lambda r: r["post"]["marks"])
        if r:
            r["post"]["marks"] = []
            return s

    def index(s):
        r = scroll(s)
        if r:
            r["post"]["i"] += 1
            return s
    return [("image", image), ("half", half), ("marker", marker),
            ("index", index)]


def drive(prop, seed, tier, edges):
    import numpy as np
    import matplotlib.pyplot as plt
    from matplotlib.backend_bases import MouseEvent
    from GridParameters import GridParameters
    from GridProperty import GridProperty, GridPropertyViewer
    from GridPropertyName import GridPropertyName
    from GridPropertyUnit import GridPropertyUnit
    from obs import call
    rng = random.Random(seed * 1000 + 12)
    nprng = np.random.default_rng(seed * 1000 + 12)
    TITLE = re.compile(r"^(.*) \[(.*)\] - (.*?) = (-?[0-9.]+)"
                       r"( - (horizontal|vertical))?$")
    LABEL = ["$y$", "$x$", "$R_f$"]
    UNIT = 2.0 ** -10

    def points(ax):
        """every visible marker, however it is drawn"""
        for line in ax.lines:
            if line.get_visible():
                xs, ys = line.get_xdata(orig=True), line.get_ydata(orig=True)
                yield from zip(np.atleast_1d(xs), np.atleast_1d(ys))
        for coll in ax.collections:
            if coll.get_visible():
                yield from np.ma.filled(coll.get_offsets(), np.nan)

    def run(what, axis, n, start, frozen, ups, many=False):
        sizes = [rng.randrange(2, 4) for _ in range(3)]
        sizes[2] = rng.choice([3, 5])
        if many:
            sizes = [rng.randrange(8, 40) for _ in range(3)]
            sizes[2] = 2 * rng.randrange(4, 16) + 1
        sizes[axis] = n
        if axis == 2 and n % 2 == 0:
            n += 1
            sizes[2] = n
            ups = list(ups)
        # the axes, in units; steps of at least 24 units
        step = [rng.choice([24, 30, 1024, 100]) for _ in range(3)]
        if axis == 2 and rng.random() < 0.07:
            step[2] = 0                     # every rf is 1
        lo = [rng.choice([0, 0, -7, -1024, 333]) for _ in range(3)]
        nr = (sizes[2] + 1) // 2
        gp = GridParameters(
            lo[1] * UNIT, (lo[1] + step[1] * (sizes[1] - 1)) * UNIT, sizes[1],
            lo[0] * UNIT, (lo[0] + step[0] * (sizes[0] - 1)) * UNIT, sizes[0],
            1 + step[2] * (nr - 1) * UNIT, nr)
        vectors = gp.get_vectors()
        data = nprng.permutation(int(np.prod(sizes))).reshape(sizes) * 1.0
        data[nprng.random(sizes) < 0.2] = np.nan
        name = rng.choice(list(GridPropertyName))
        unit = rng.choice(list(GridPropertyUnit))
        prop_ = GridProperty(name, unit, data, gp)
        masked = rng.random() < 0.5
        shown = data
        if rng.random() < 0.7:
            mask = nprng.random(sizes) < 0.4
            prop_.set_mask(mask)
            if masked:
                shown = np.where(mask, np.nan, data)
        coords = None
        if rng.random() < 0.75:
            coords = []
            used = set()
            # just within and just beyond a third of a step, on 1/64 units
            near = [[math.floor(s * 64 / 3 - 0.5) / 64 / max(s, 1),
                     math.ceil(s * 64 / 3 + 0.5) / 64 / max(s, 1)]
                    for s in step]
            crowd = rng.choice(list(range(n)))
            for _ in range(rng.randrange(1, 400) if many else
                           rng.randrange(0, 7)):
                c = []
                for a in range(3):
                    v = float(rng.choice(list(vectors[a])))
                    if many and a == axis and rng.random() < 0.5:
                        v = float(vectors[a][crowd])
                    off = step[a] * UNIT * rng.choice(
                        [0, 0, 1 / 3 - 1 / 64, 1 / 3 + 1 / 64, -1 / 3 + 1 / 64,
                         -1 / 3 - 1 / 64, 0.5, 1 / 8, -1 / 4,
                         *(near[a] if step[a] else ()),
                         *(-v for v in near[a] if step[a]),
                         rng.randrange(-21, 22) / 64,
                         rng.randrange(-21, 22) / 64])
                    c.append(v + off)
                # a distinct vertical position identifies a marker
                up = c[1] if axis == 0 else c[0]
                if up in used:
                    continue
                used.add(up)
                coords.append(tuple(c))
            if rng.random() < 0.2:       # the same point twice
                coords = coords + coords[:1]
                coords = coords[:-1] if len(coords) < 2 else coords
                coords = list(dict.fromkeys(coords))

        def observe(view, ax):
            arr = np.ma.filled(np.ma.asarray(view.image.get_array())
                               .astype("float64"), np.nan)
            img = []
            for k in range(n):
                if np.array_equal(arr, np.take(shown, k, axis),
                                  equal_nan=True):
                    img.append(k + 1)
            m = TITLE.match(ax.get_title())
            marks, strange = [], False
            for x, y in points(ax):
                hit = None
                for k, c in enumerate(coords or []):
                    up = c[1] if axis == 0 else c[0]
                    if float(y) == up and (axis != 2 or float(x) == c[1]):
                        hit = k + 1
                if hit is None:
                    strange = True
                else:
                    marks.append(hit)
            return dict(i=int(view.index), img=img, parsed=bool(m),
                        name=bool(m and m.group(1) == name.get_name()),
                        unit=bool(m and m.group(2) == unit.get_unit()),
                        coord=bool(m and m.group(3) == LABEL[axis]),
                        value=m.group(4) if m else "",
                        half=(m.group(6) or "none") if m else "",
                        marks=sorted(marks), strange=strange)
        plt.close("all")
        fig, ax = plt.subplots(figsize=(1, 1), dpi=20)
        if start is not None and start >= n:
            start = n - 1
        res, view = call(GridPropertyViewer, ax, axis, prop_, masked,
                         index=start, frozen=frozen,
                         **({} if coords is None else
                            dict(coordinates=list(coords))))
        fixed = [dict(axis=axis, n=n, i=-1 if start is None else start,
                      frozen=frozen,
                      vals=[round(float(v) / (UNIT / 64)) if abs(v) < 1000
                            else 0 for v in vectors[axis]],
                      c=[round(float(c[axis]) / (UNIT / 64))
                         for c in coords or []],
                      text=["%.4f" % v for v in vectors[axis]])][0]
        empty = dict(i=-1, img=[], parsed=False, name=False, unit=False,
                     coord=False, value="", half="", marks=[], strange=False)
        recs = [dict(op="new", res=res, up=False, cfg=fixed,
                     post=observe(view, ax) if view is not None else empty)]
        if view is None:
            return dict(what=what, recs=recs)
        for up in ups:
            event = MouseEvent("scroll_event", fig.canvas, 5, 5,
                               button="up" if up else "down",
                               step=1 if up else -1)
            if not up and rng.random() < 0.25:
                event.button = rng.choice([None, "left", 1, "Up", ""])
            res, _ = call(view.onscroll, event)
            recs.append(dict(op="scroll", res=res, up=up, cfg=fixed,
                             post=observe(view, ax)))
            if rng.random() < 0.1:
                res, _ = call(rng.choice([
                    lambda: str(view), lambda: prop_.get_data(True).fill(0),
                    lambda: view.update()]))
                recs.append(dict(op="touch", res=res, up=False, cfg=fixed,
                                 post=observe(view, ax)))
        for r in recs[1:]:
            r["cfg"] = {}
        return dict(what=what, recs=recs)

    items = edges["scrolls"]
    quota = 130 if tier == "quick" else 2500
    frozen = [h for h in items if h[0]["frozen"]]
    moving = [h for h in items if not h[0]["frozen"]]
    chosen = rng.sample(frozen, min(len(frozen), quota // 10)) + \
        rng.sample(moving, min(len(moving), quota))
    for h in chosen:
        yield run("model history", rng.randrange(3), h[0]["n"],
                  None if h[0]["i"] < 0 else h[0]["i"], h[0]["frozen"],
                  [e["up"] for e in h[1:]])
    for _ in range(20 if tier == "quick" else 400):
        n = rng.randrange(2, 12)
        bias = rng.choice([0.2, 0.5, 0.8])
        yield run("random history", rng.randrange(3), n,
                  rng.choice([None, 0, n - 1, rng.randrange(n)]),
                  rng.random() < 0.1,
                  [rng.random() < bias for _ in range(rng.randrange(5, 25))])
    for k in range(9 if tier == "quick" else 90):
        n = rng.randrange(8, 40)
        bias = rng.choice([0.1, 0.5, 0.9])
        yield run("large random history", k % 3, n,
                  rng.choice([None, 0, n - 1, rng.randrange(n)]), False,
                  [rng.random() < bias for _ in range(rng.randrange(15, 60))],
                  many=True)
    plt.close("all")
