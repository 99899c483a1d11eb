"""C31: ring systems drawn from the points of a grid, in front of the star."""
import math
import os
import random

TRACE_MODULE = "T_Eclipse"


def models(prop, tier):
    h, span = (4, 7) if tier == "quick" else (5, 9)
    return [dict(module="MC_Eclipse", name="passages", edges=True, workers=6,
                 cfg="SPECIFICATION Spec\nCONSTANTS H = %d\nSpan = %d\n"
                     "INVARIANTS Inv Once\n" % (h, span))]


def assumptions(prop):
    return ["150 or more fx/fy samples and no dx or dy between 0 and 0.01",
            "drawn contours may be off by 10^-5 of their radius, and places "
            "closer than 10^-3 of the disk to an edge are not judged",
            "the star is at -t / duration at time t",
            "filled areas follow the nonzero winding rule, as drawn"]


def corruptors(prop):
    def far(c):
        k = max(range(len(c)), key=lambda i: abs(c[i]))
        c[k] = -c[k]

    def crossed(s):
        for r in s["recs"]:
            for g in r["rings"]:
                if g["cross"]:
                    return r, g
        return None, None

    def ends(s):
        r, g = crossed(s)
        if g:
            g["cross"] = g["cross"][1:]
            return s

    def mirrored(s):
        r, g = crossed(s)
        if g:
            for q in g["cross"]:
                q["x"] = [v + 3 * (i == len(q["x"]) - 1) for i, v in
                          enumerate(q["x"])]
            return s

    def tilted(s):
        for r in s["recs"]:
            d = r["d"]
            if d["inc"] > 30 and d["R"][-1] >= 1 and len(d["R"]) == 4 and \
                    abs(d["tilt"]) % 90 > 5 and any(
                    g["cross"] for g in r["rings"]):
                d["c"], d["s"] = d["s"], [-v for v in d["c"]]
                return s

    def slope(s):
        for r in s["recs"]:
            r["pred"] = [dict(p, g=[0, 0, 9000] if not (
                len(p["g"]) == 3 and p["g"][2] > 5000) else [0])
                for p in r["pred"]]
        return s if any(r["pred"] and any(
            g["cross"] for g in r["rings"]) for r in s["recs"]) else None

    def seen(s):
        for r in s["recs"]:
            for q in r["seen"]:
                q["on"] = [] if q["on"] else [1]
        return s

    def transmission(s):
        for r in s["recs"]:
            for q in r["seen"]:
                q["t"] += 40
        return s
    return [("ends", ends), ("mirrored", mirrored), ("tilted", tilted),
            ("slope", slope), ("seen", seen), ("transmission", transmission)]


def crossings(patch, scale):
    """where the contours of a patch meet y = 0: (x, |sin| of the slope,
    direction), in units of scale"""
    import numpy as np
    path = patch.get_patch_transform().transform_path(patch.get_path())
    out = []
    ts = np.linspace(0, 1, 65)
    for curve, code in path.iter_bezier():
        if code == path.MOVETO:
            continue
        p = np.atleast_2d(curve(ts)) / scale
        up = p[:, 1] >= 0
        for k in np.nonzero(up[1:] != up[:-1])[0]:
            a, b = ts[k], ts[k + 1]
            for _ in range(60):
                m = (a + b) / 2
                if (curve(m)[1] >= 0) == up[k]:
                    a = m
                else:
                    b = m
            at = np.asarray(curve((a + b) / 2)) / scale
            lo, hi = max(0, a - 1e-4), min(1, a + 1e-4)
            d = np.asarray(curve(hi)) - np.asarray(curve(lo))
            out.append((float(at[0]), float(abs(d[1]) / math.hypot(*d)),
                        1 if up[k + 1] else -1))
    return sorted(out)


def drive(prop, seed, tier, edges):
    import matplotlib.pyplot as plt
    import numpy as np
    from GridParameters import GridParameters
    from Ring import Ring
    from RingSystem import RingSystem
    from Shallot import ShallotGrid
    from obs import big, call
    rng = random.Random(seed * 1000 + 31)
    quick = tier == "quick"
    top = os.getcwd()
    grids = [0]

    def interrupted(args, n):
        """the folder of a build that was interrupted"""
        real, left = np.save, [rng.randrange(3, 60)]

        def save(*a, **k):
            left[0] -= 1
            if left[0] < 0:
                raise RuntimeError("no space left")
            return real(*a, **k)
        np.save = save
        try:
            call(ShallotGrid, GridParameters(*args), n, 50, False, True)
        finally:
            np.save = real
        folders = [f for f in os.listdir(".") if os.path.isdir(f)]
        return folders[0] if len(folders) == 1 else None

    def grid(life):
        grids[0] += 1
        folder = os.path.join(top, "e%d" % grids[0])
        os.mkdir(folder)
        os.chdir(folder)
        mx, my = rng.uniform(0.4, 2.5), rng.uniform(0.4, 2.5)
        lo = rng.choice([(0.0, 0.0)] if life == "extended" else
                        [(-mx, -my), (0.1, 0.2), (-mx / 3, 0.15),
                         (0.05, -my), (-mx, 0.0)])
        args = (lo[0], mx, rng.randrange(2, 5), lo[1], my, rng.randrange(2, 5),
                rng.uniform(1.3, 4), rng.choice([2, 3, 4]))
        n = rng.choice([150, 200, 301])
        g = None
        if life == "resumed":
            left = interrupted(args, n)
            if left:
                _, g = call(ShallotGrid.load, left, 50, _limit=120)
        if g is None:
            _, g = call(ShallotGrid, GridParameters(*args), n, 50, _limit=120)
        if g is None:
            return None, None, None
        hs = [rng.uniform(0.12, 0.2), rng.uniform(0.22, 0.32),
              rng.uniform(0.35, 0.45), 0.5, rng.uniform(0.6, 0.9)]
        pos = [v for h in hs for v in (h, -h)]
        rng.shuffle(pos)
        if life == "loaded" and rng.random() < 0.5:
            measure(g, pos)
        if life == "loaded":
            call(g.save, "grid")
            _, g = call(ShallotGrid.load, "grid", 50)
            if g is None:
                return None, None, None
        call(g.set_eclipse_parameters, 1.0, 5.0, 0.5)
        measure(g, pos)
        return g, hs, pos

    def measure(g, pos):
        duration = rng.choice([1.0, 2.0, 0.5])
        call(g.set_eclipse_parameters, duration, rng.uniform(3, 9), 0.5)
        call(g.add_gradients, np.array([-p * duration for p in pos]),
             np.array([rng.choice([0.0, 0.05]) for _ in pos]),
             np.array([1.0 for _ in pos]), np.array([1.0 for _ in pos]))

    def point(g, source, given):
        """(R, inclination, tilt, dx, dy) and the predicted slopes"""
        R = g.get_disk_radius(False)
        inc = g.get_inclination(False)
        ok = np.argwhere(np.isfinite(R) & (inc < 88) & (R < 50))
        if not len(ok):
            return None
        y, x, k = (int(v) for v in ok[rng.randrange(len(ok))])
        dy, dx, _ = g.parameters.get_vectors()
        pred = []
        if source == "maps":
            d = (R[y, x, k], inc[y, x, k], g.get_tilt(False)[y, x, k],
                 dx[x], dy[y])
            p, _, _, data = g.get_gradients(masked=False,
                                            property_masked=False)
            pred = [(float(a), float(b[y, x, k])) for a, b in zip(p, data)]
        elif source == "solutions":
            call(g.determine_gradient_fit, rng.random() < 0.5)
            most = int(np.sum(~g.get_combined_mask()))
            if not most:
                return None
            n = rng.randrange(1, min(most, 12) + 1)
            res, sol = call(g.extract_solutions, n)
            if res != "ok":
                return None
            j = rng.randrange(n)
            d = tuple(sol[i][j] for i in range(1, 6))
        else:
            if source == "closest":
                res, found = call(
                    g.determine_closest_grid_point, float(R[y, x, k]) * 1.01,
                    float(inc[y, x, k]), float(g.get_tilt(False)[y, x, k]),
                    float(dy[y]), False)
                if res != "ok":
                    return None
                y, x, k = (int(v) for v in found[1])
            d, _, (p, v) = g.get_grid_point_data(y, x, k, masked=False)
            pred = [(float(a), float(b)) for a, b in zip(p, v)]
        # the place of a gradient follows from the time it was given with
        if len(pred) == len(given):
            pred = [(a, v) for a, (_, v) in zip(given, pred)]
        d = tuple(float(v) for v in d)
        return (d, pred) if all(math.isfinite(v) for v in d) else None

    def system(make, bounds, trans, inc, tilt):
        tiny = bounds[-1] * 1e-7
        lo, hi = np.array(bounds[:-1]), np.array(bounds[1:])
        t = np.array(trans)
        if make == "added":
            _, s = call(RingSystem, tiny, lo[:0], hi[:0], t[:0], inc, tilt, 50)
            order = list(range(len(lo)))
            for k in order:
                call(s.add_ring, k, Ring(lo[k], hi[k], t[k], 10, 20))
        elif make == "replaced":
            _, s = call(RingSystem, tiny, lo, hi, 1 - t, inc, tilt, 50)
            for k in rng.sample(range(len(lo)), len(lo)):
                call(s.replace_ring, k, Ring(lo[k], hi[k], t[k], 70, -20))
        elif make == "split":
            _, s = call(RingSystem, tiny, lo[:1], hi[-1:], t[:1], inc, tilt,
                        50)
            call(s.split_rings, len(lo) + 1)
            lo, hi = (s.get_inner_radii(), s.get_outer_radii())
            t = s.get_transmissions()
        else:
            _, s = call(RingSystem, tiny, lo, hi, t, inc, tilt, 50)
        return s, [float(v) for v in lo], [float(v) for v in hi], \
            [float(v) for v in t]

    def record(g, hs, pos, c):
        got = point(g, c["source"], pos)
        if got is None:
            return None
        (R, inc, tilt, dx, dy), pred = got
        ci, co, si = (math.cos(math.radians(inc)),
                      math.cos(math.radians(tilt)),
                      math.sin(math.radians(tilt)))
        if ci < 0.02:
            return None
        a = co * co + si * si / ci / ci

        def radius(h):
            return math.sqrt(max(0, R * R + a * (h * h - 0.25)))
        least = math.sqrt(max(0, R * R - a / 4))
        bounds = [1e-16] + [radius(hs[k - 1]) for k in sorted(c["inner"])] + [R]
        if rng.random() < 0.5 and least > 0.05:
            bounds.insert(1, least * rng.uniform(0.3, 0.9))
        if c["wide"]:
            bounds.append(radius(hs[4]))
        if any(q - p < 1e-9 * R for p, q in zip(bounds, bounds[1:])):
            return None
        scale = rng.choice([1.0, 1.0, 30.0, rng.uniform(5, 300)])
        trans = [(0.05 + k + 0.8 * rng.random()) / (len(bounds) + 1)
                 for k in range(len(bounds) - 1)]
        rng.shuffle(trans)
        s, lo, hi, t = system(c["make"], [b * scale for b in bounds], trans,
                              inc, tilt)
        plt.close("all")
        fig, ax = plt.subplots()
        res, ax = call(s.plot, ax=ax, x_shift=scale * dx, y_shift=scale * dy)
        rec = dict(op="eclipse", res=res, count=len(lo), whole=not c["wide"],
                   rings=[], seen=[], pred=[],
                   d=dict(dx=big(dx), dy=big(dy), R=big(R), ci=big(ci),
                          c=big(co), s=big(si), inc=inc, tilt=tilt),
                   txt="%r" % ([c, R, inc, tilt, dx, dy, scale],))
        if res == "ok":
            drawn = []
            for p in ax.patches:
                box = p.get_path().get_extents(p.get_patch_transform())
                if max(box.width, box.height) > 1e-5 * R * scale:
                    drawn.append((max(box.width, box.height), p))
            drawn.sort(key=lambda q: q[0])
            cross = [crossings(p, scale) for _, p in drawn]
            opaque = [p.get_facecolor()[3] if p.get_fill() and
                      p.get_visible() else 0.0 for _, p in drawn]
            for k in range(min(len(lo), len(cross))):
                rec["rings"].append(dict(
                    ri=big(lo[k] / scale), ro=big(hi[k] / scale),
                    t=round(1e6 * t[k]),
                    cross=[dict(x=big(x), g=big(v)) for x, v, _ in cross[k]]))
            rec["rings"] += [dict(ri=[0], ro=[0], t=0, cross=[])] * (
                len(cross) - len(lo))
            rec["pred"] = [dict(x=big(p), g=big(v)) for p, v in pred
                           if math.isfinite(v)]
            places = [0.0, 0.49, -0.49, 0.51, -0.51, 2.0, -2.0] + \
                [rng.uniform(-1, 1) for _ in range(10)] + \
                [v * rng.choice([1, -1]) for p, q in zip([0] + hs, hs)
                 for v in [(p + q) / 2]]
            for x in places:
                on = [k + 1 for k, q in enumerate(cross)
                      if sum(w for v, _, w in q if v > x) and opaque[k]]
                rec["seen"].append(dict(
                    x=big(x), on=on,
                    t=round(1e6 * (1 - opaque[on[0] - 1])) if on else
                    1000000))
        plt.close("all")
        return rec

    items = edges["passages"]
    by_life = {}
    for c in items:
        by_life.setdefault(c["life"], []).append(c)
    for _ in range(12 if quick else 120):
        for life in sorted(by_life):
            g, hs, pos = grid(life)
            if g is None:
                continue
            recs = [record(g, hs, pos, c) for c in
                    rng.sample(by_life[life], 10 if quick else 16)]
            recs = [r for r in recs if r]
            os.chdir(top)
            if recs:
                yield dict(what="%s grid" % life, recs=recs, w=20 * len(recs))
