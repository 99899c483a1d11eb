"""C06: the rendered pixels of drawn ring systems."""
import math
import random

TRACE_MODULE = "T_Drawing"


def models(prop, tier):
    return [dict(module="MC_Drawing", name="drawings", edges=True, workers=6,
                 cfg="SPECIFICATION Spec\nINVARIANT Inv\n")]


def assumptions(prop):
    return ["pixels closer than 3.5 pixels to an edge (de-projected) are not "
            "judged",
            "cosine and sine of the angles reach the specification rounded "
            "to 1/4096 (their squares are checked to add up to 1)",
            "rendered with the Agg backend; systems with at least one ring"]


def corruptors(prop):
    def pixels(s):
        for q in s["recs"][0]["px"]:
            q[2:] = [255 - v for v in q[2:]]
        return s

    def window(s):
        s["recs"][0]["win"][2] += 30
        return s

    def scale(s):
        s["recs"][0]["scale"][1] += 30
        return s
    def opacity(s):
        s["recs"][0]["parts"][-1]["alpha"] += 40
        return s

    def contour(s):
        s["recs"][0]["parts"][-1]["subs"][0][0] += 4000
        return s

    def lost(s):
        s["recs"][0]["parts"].pop()
        return s
    return [("pixels", pixels), ("window", window), ("scale", scale),
            ("opacity", opacity), ("contour", contour), ("lost", lost)]


def contours(patch, cx, cy, ct, st, ci, unit):
    """The closed curves of a patch: half extents along and across the tilted
    axes, the centre, and the furthest a point of the curve lies off the
    ellipse with these half extents; all in units."""
    import numpy as np
    path = patch.get_patch_transform().transform_path(patch.get_path())
    curves = []
    for curve, code in path.iter_bezier():
        if code == path.MOVETO:
            curves.append([])
        elif curves:
            pts = curve(np.linspace(0, 1, 129))
            curves[-1].append(np.atleast_2d(pts))
    res = []
    for c in curves:
        if not c:
            continue
        p = np.vstack(c) - [cx, cy]
        u = p @ np.array([ct, st])
        v = p @ np.array([-st, ct])
        a, b = (u.max() - u.min()) / 2, (v.max() - v.min()) / 2
        um, vm = (u.max() + u.min()) / 2, (v.max() + v.min()) / 2
        off = 0
        if ci > 0.02 and b > 0:
            rad = np.hypot(u - um, (v - vm) / b * a)
            off = abs(rad - a).max()
        res.append([int(round(float(x) / unit)) for x in (a, b, um, vm, off)])
    return res


def drive(prop, seed, tier, edges):
    import logging
    import numpy as np
    import matplotlib.pyplot as plt
    from matplotlib.colors import to_rgb
    from Ring import Ring
    from RingSystem import RingSystem
    from obs import call
    rng = random.Random(seed * 1000 + 6)
    SIZE, DPI = 360, 45.0
    COLOURS = ["black", "red", "tab:blue", "#3366cc", "green", "C1", "0.3"]

    def draw(what, planet, rings, inc, tilt, cx, cy, edits=False):
        colour = rng.choice(COLOURS)
        plt.close("all")
        fig = plt.figure(figsize=(SIZE / DPI, SIZE / DPI), dpi=DPI)
        ax = fig.add_axes([0, 0, 1, 1])
        cols = [np.array([r[k] for r in rings], dtype="float64")
                for k in range(3)]
        if edits:       # the same system, reached by edits
            res, system = call(RingSystem, planet, *[c[:0] for c in cols],
                               inc, tilt, logging_level=logging.CRITICAL)
            for k, r in enumerate(rings):
                call(system.add_ring, k, Ring(*r, 10, 20))
        else:
            res, system = call(RingSystem, planet, *cols, inc, tilt,
                               logging_level=logging.CRITICAL)
        before = [c.tolist() for c in system.get_rings_data()]
        kw = {}
        if colour != "black" or rng.random() < 0.5:
            kw["face_color"] = colour
        if cx or rng.random() < 0.5:
            kw["x_shift"] = cx
        if cy or rng.random() < 0.5:
            kw["y_shift"] = cy
        if rng.random() < 0.7:
            kw["ax"] = ax
        res, out = call(system.plot, **kw)
        outer = max(r[1] for r in rings)
        q = (outer + 2) / 2000
        c = [round(255 * v) for v in to_rgb(colour)]
        cos_i, t = math.cos(math.radians(inc)), math.radians(tilt)
        geo = dict(ct=round(4096 * math.cos(t)), st=round(4096 * math.sin(t)),
                   ci=max(0, round(4096 * cos_i)))

        def u(x):
            return round(x / q)
        rec = dict(op="draw", res=res, col=c, cx=u(cx), cy=u(cy),
                   outer=u(outer), two=u(2), parts=[], want=[],
                   sz=[], m=math.ceil(3.5 * 4000 / SIZE),
                   win=[], scale=[], px=[], same=False,
                   d=dict(planet=u(planet), g=geo,
                          rings=[dict(i=u(r[0]), o=u(r[1]),
                                      t=round(1000 * r[2])) for r in rings]),
                   txt="%r" % ([planet, rings, inc, tilt, cx, cy, colour],))
        if res == "ok":
            fig.canvas.draw()
            buf = np.asarray(fig.canvas.buffer_rgba())
            unit = (outer + planet) * 1e-6
            for patch in out.patches:
                fc = patch.get_facecolor()
                rec["parts"].append(dict(
                    alpha=round(1e8 * fc[3]) if patch.get_fill() else 0,
                    seen=bool(patch.get_visible()),
                    rgb=[round(1e6 * v) for v in fc[:3]],
                    subs=contours(patch, cx, cy, math.cos(t), math.sin(t),
                                  cos_i, unit)))
            rec["sz"] = [round(planet / unit), round(2e6)]
            rec["rgb"] = [round(1e6 * v) for v in to_rgb(colour)]
            for r in rings:
                rec["want"].append(dict(
                    alpha=round(1e8 * (1 - r[2])),
                    i=round(r[0] / unit), o=round(r[1] / unit),
                    ib=round(r[0] * cos_i / unit),
                    ob=round(r[1] * cos_i / unit)))
            # where the drawing is expected, in pixels
            to_px = out.transData.transform
            xl, yl = out.get_xlim(), out.get_ylim()
            rec["win"] = [u(v) for v in (*xl, *yl)]
            o = to_px((cx, cy))
            rec["scale"] = [round(1000 * abs(to_px((cx + 1, cy))[0] - o[0]) *
                                  q * 10),
                            round(1000 * abs(to_px((cx, cy + 1))[1] - o[1]) *
                                  q * 10)]
            pts = []
            for _ in range(150):
                pts.append((cx + rng.uniform(-0.97, 0.97) * (outer + 2),
                            cy + rng.uniform(-0.97, 0.97) * (outer + 2)))
            ring_edges = sorted({0.0, planet} | {v for r in rings
                                                 for v in r[:2]})
            for lo, hi in zip(ring_edges, ring_edges[1:] + [outer * 1.15]):
                for _ in range(25 if len(rings) < 8 else 2):
                    e = rng.uniform(lo, hi)
                    f = rng.uniform(0, 2 * math.pi)
                    a, b = e * math.cos(f), e * cos_i * math.sin(f)
                    pts.append((cx + a * math.cos(t) - b * math.sin(t),
                                cy + a * math.sin(t) + b * math.cos(t)))
            for k in range(20):
                f = 2 * math.pi * k / 20
                pts.append((cx + 0.8 * planet * math.cos(f),
                            cy + 0.8 * planet * math.sin(f)))
            h = buf.shape[0]
            for x, y in pts:
                px, py = to_px((x, y))
                col, row = int(math.floor(px)), h - 1 - int(math.floor(py))
                if 3 <= col < buf.shape[1] - 3 and 3 <= row < h - 3:
                    rec["px"].append([u(x), u(y)] +
                                     [int(v) for v in buf[row, col, :3]])
            rec["same"] = before == [c.tolist()
                                     for c in system.get_rings_data()]
        plt.close("all")
        return dict(what=what, recs=[rec], w=60)

    def transmission():
        return rng.choice([0, 1, 0.25, 0.5, rng.random(), rng.random(),
                           10 ** rng.uniform(-7, -1),
                           1 - 10 ** rng.uniform(-7, -1)])

    items = edges["drawings"]
    n = 70 if tier == "quick" else 600
    for d in rng.sample(items, min(n, len(items))):
        g = d["g"]
        inc = math.degrees(math.acos(g["ci"] / 4096))
        tilt = math.degrees(math.atan2(g["st"], g["ct"]))
        f = rng.choice([0.001, 0.01])
        yield draw("model " + g["name"], d["planet"] * f,
                   [(r["i"] * f, r["o"] * f, transmission())
                    for r in d["rings"]],
                   inc, tilt, rng.choice([0, 1.5, -20]),
                   rng.choice([0, -0.75, 40]))
    for n in (23, 61):              # many rings
        edge = np.linspace(3, 60, 2 * n).tolist()
        yield draw("many rings", 1.0,
                   [(edge[2 * j], edge[2 * j + 1 + j % 2 * (j < n - 1)],
                     transmission()) for j in range(n)],
                   rng.uniform(0, 80), rng.uniform(-180, 180), 0, 1.5,
                   edits=n == 23)
    for k in range(110 if tier == "quick" else 1500):
        n = rng.randrange(1, 5)
        scale = 10 ** rng.uniform(-0.5, 1.7)
        edge = sorted(rng.uniform(0, 1) * scale for _ in range(2 * n))
        rings, x = [], 0
        for j in range(0, 2 * n, 2):
            i, o = edge[j], edge[j + 1]
            if rng.random() < 0.2 and x:
                i = x
            if o - i > 0.03 * scale:
                rings.append((i, o, transmission()))
                x = o
        if not rings:
            continue
        yield draw("random", rng.choice([0, rng.uniform(0, 0.5) * scale,
                                         rng.uniform(0, 1.2) * scale]),
                   rings, rng.choice([0, 90, rng.uniform(0, 90),
                                      rng.uniform(30, 80)]),
                   rng.choice([0, 90, -180, 180, rng.uniform(-180, 180),
                               rng.uniform(-180, 180)]),
                   rng.choice([0, rng.uniform(-3, 3) * scale]),
                   rng.choice([0, rng.uniform(-3, 3) * scale]),
                   edits=rng.random() < 0.3)
