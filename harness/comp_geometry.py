"""C13, C14, C15, C21: the ellipses of shallot grids and their slopes."""
import math
import random

TRACE_MODULE = "T_Geometry"
MAPS = ("radius", "inclination", "tilt", "fx", "fy")


def models(prop, tier):
    return [dict(module="MC_Geometry", name="family", edges=True, workers=4,
                 cfg="SPECIFICATION Spec\nINVARIANT Inv\n")]


def assumptions(prop):
    a = ["numbers reach the specification rounded to 10^-12, cosines and "
         "sines of the angles as witnesses (their squares are checked)",
         "150 or more fx/fy samples and no dx or dy between 0 and 0.01, the "
         "sampling for which the code is used"]
    if prop == "C15":
        a.append("interpolation error allowed: half more than that of linear "
                 "interpolation of the sampled curve, or 10 % of the disk radius "
                 "where the curve is not kept; the "
                 "smallest disk may be missed by 6 % (2 % from 600 samples)")
    if prop == "C21":
        a.append("no slope is demanded where the position is the centre of "
                 "the rings")
    return a


def corruptors(prop):
    NAN = -2000000000

    def first(s, op):
        return next((r for r in s["recs"] if r["op"] == op), None)

    def swap(s):
        r = first(s, "grid")
        if r:
            m = r["maps"]["radius"]
            for row in m:
                for c in row:
                    if c[0] != NAN:
                        c[0] = NAN
                        return s

    def point(s):
        r = first(s, "points")
        for p in (r["pts"] if r else []):
            # a rotated disk is another ellipse, unless it is a circle
            if 0.05 < p["inc"] / 90 < 0.99:
                p["c"], p["s"] = [-v for v in p["s"]], p["c"]
                return s

    def stretch(s):
        r = first(s, "points")
        for p in (r["pts"] if r else []):
            if p["fx"] != p["fy"]:
                p["fx"], p["fy"] = p["fy"], p["fx"]
                return s

    def mirror(s):
        r = first(s, "grid")
        if r and r["extended"] and \
                len(r["wantx"]) > 2 < len(r["wanty"]):
            m = r["maps"]["radius"]
            m[0][0], m[0][1] = m[0][1], m[0][0]
            if m[0][0] != m[0][1]:
                return s

    def vectors(s):
        r = first(s, "grid")
        if r:
            r["dx"][-1] += 100
            return s

    def quadrant(s):
        r = first(s, "quadrant")
        if r:
            r["ax"] -= 1
            return s

    def rf(s):
        for r in s["recs"]:
            if r["op"] == "centre" and len(r["R"]) > 2 and r["R"][-1]:
                r["R"][-1] = r["R"][-2]
                return s

    def smallest(s):
        for r in s["recs"]:
            m = len(r.get("R", [])) // 2
            if r["op"] == "centre" and r["R"][m] and r["n"] >= 150:
                r["R"] = [_add10(v) for v in r["R"]]
                return s

    def diag(s):
        for r in s["recs"]:
            if r["op"] == "centre" and r["diag"][-1]:
                r["diag"][-1] = [r["diag"][-1][0] + 3000] + r["diag"][-1][1:]
                return s

    def slope(s):
        for r in s["recs"]:
            if r["op"] == "slope":
                for p in r["pts"]:
                    if p["g"] and 0.1 < p["gf"] < 0.95 and p["nf"] > 0.1:
                        p["g"] = [p["g"][0], p["g"][1] ^ 512] + p["g"][2:]
                        return s

    def _add10(v):      # 11 % more
        n = sum(d * 10000 ** k for k, d in enumerate(v)) * 111 // 100
        out = []
        while n:
            out.append(n % 10000)
            n //= 10000
        return out
    return {"C13": [("undefined point", swap), ("rotated disk", point),
                    ("stretch", stretch)],
            "C14": [("not mirrored", mirror), ("vectors", vectors),
                    ("quadrant", quadrant)],
            "C15": [("rf", rf), ("smallest", smallest), ("diagnostic", diag)],
            "C21": [("slope", slope)]}[prop]


def relevant(prop, sessions):
    ops = {"C13": ("grid", "points"), "C14": ("grid", "quadrant"),
           "C15": ("centre",), "C21": ("slope", "slopes")}[prop]
    return sum(1 for s in sessions for r in s["recs"] if r["op"] in ops)


def drive(prop, seed, tier, edges):
    import numpy as np
    from GridParameters import GridParameters
    from Shallot import ShallotGrid
    from obs import big, call, fixed
    rng = random.Random(seed * 1000 + 13)
    SC = 100000
    quick = tier == "quick"

    def ints(a):
        a = np.asarray(a, dtype=float)
        if a.ndim == 0:
            return fixed(a, SC)
        return [ints(v) for v in a]

    def config(c):
        lo = {"zero": lambda m: 0, "some": lambda m: 0.25,
              "negative": lambda m: -m / 4, "symmetric": lambda m: -m}
        return (lo[c["sx"]](c["mx"]), c["mx"], c["nx"], lo[c["sy"]](c["my"]),
                c["my"], c["ny"], c["rf"] / 10, c["nr"])

    def build(args, n, keep=False):
        gp = GridParameters(*args)
        return call(ShallotGrid, gp, n, logging_level=50,
                    keep_diagnostics=keep, _limit=120)

    def well_sampled(args, n, largest=9):
        """axes, radii and sampling for which the code is used"""
        sx, mx, nx, sy, my, ny, rf, nr = args
        small = [abs(v) for v in (*np.linspace(sx, mx, nx),
                                  *np.linspace(sy, my, ny)) if v]
        return (nx > 1 and ny > 1 and
                n >= max(150, 30 * mx, 30 * my) and
                rf <= largest and min(small + [1]) >= 0.01 and
                (nr == 1 or rf - 1 >= 0.19))

    def maps_of(g):
        return dict(radius=g.get_disk_radius(False),
                    inclination=g.get_inclination(False),
                    tilt=g.get_tilt(False), fx=g.get_fx_map(False),
                    fy=g.get_fy_map(False))

    def grid_record(g, res, args, n):
        rec = dict(op="grid", res=res, args=list(args), n=n,
                   core=well_sampled(args, n),
                   extended=args[0] == 0 == args[3],
                   wantx=ints(np.linspace(*args[0:3])),
                   wanty=ints(np.linspace(*args[3:6])), rfwant=[], rf=[],
                   shape=[], dx=[], dy=[], maps={}, dxzero=[],
                   dyzero=[])
        rf = np.linspace(1, args[6], args[7])
        rec["rfwant"] = ints(np.concatenate((rf[::-1], rf[1:])))
        if res == "ok":
            dy, dx, rfa = g.parameters.get_vectors()
            maps = maps_of(g)
            rec.update(shape=[len(dy), len(dx), len(rfa)], dx=ints(dx),
                       dy=ints(dy), dxzero=[bool(v == 0) for v in dx],
                       dyzero=[bool(v == 0) for v in dy], rf=ints(rfa),
                       maps={k: ints(v) for k, v in maps.items()})
        return rec

    def point(maps, dx, dy, y, x, k):
        R, inc, tilt = (float(maps[n][y, x, k]) for n in MAPS[:3])
        return dict(dx=big(dx[x]), dy=big(dy[y]), R=big(R), inc=inc,
                    c=big(math.cos(math.radians(tilt))),
                    s=big(math.sin(math.radians(tilt))),
                    ci=big(math.cos(math.radians(inc))),
                    fx=big(maps["fx"][y, x, k]), fy=big(maps["fy"][y, x, k]),
                    at=[y, x, k])

    def defined(maps):
        ok = np.ones(maps["radius"].shape, dtype=bool)
        for m in maps.values():
            ok &= np.isfinite(m) & (np.abs(m) < 1e4)
        return [tuple(int(v) for v in q) for q in np.argwhere(ok)]

    def points_record(g, num):
        maps = maps_of(g)
        dy, dx, _ = g.parameters.get_vectors()
        pts = defined(maps)
        return dict(op="points", pts=[point(maps, dx, dy, *q) for q in
                                      rng.sample(pts, min(num, len(pts)))])

    def witness(dx, dy):
        """fy of the smallest ellipse through both ends, and of others."""
        if dy == 0:
            return [1.0, 0.5, 2.0]
        r, s = math.hypot(.5, dy), -dx / dy
        t = np.linspace(0, np.pi / 2, 4001)[1:-1]
        fx, fy = 1 / (2 * r * np.cos(t)), abs(dy) / (r * np.sin(t))
        T = r * r * (fx ** 2 + s * s * fy ** 2 + fy ** 2)
        D = r ** 4 * fx ** 2 * fy ** 2
        lam = T + np.sqrt(np.maximum(T * T - 4 * D, 0))
        k = int(np.argmin(lam))
        return [float(fy[i]) for i in (k, 400, 1200, 2000, 2800, 3500)]

    def centre_records(g, n, num, core):
        maps = maps_of(g)
        diag = g.get_diagnostic_map(False)
        dy, dx, rf = g.parameters.get_vectors()
        at = [(y, x) for y in range(len(dy)) for x in range(len(dx))]
        rng.shuffle(at)
        at.sort(key=lambda q: not np.any(np.isfinite(maps["radius"][q])))
        for y, x in at[:num]:
            yield dict(op="centre", n=n, dx=big(dx[x]), dy=big(dy[y]),
                       noise=big(0.0 if dy[y] == 0 else min(
                           1e-3, 2e-16 / dy[y] ** 2)),
                       rf=[big(v) for v in rf],
                       R=[big(v) for v in maps["radius"][y, x]],
                       fx=[big(v) for v in maps["fx"][y, x]],
                       fy=[big(v) for v in maps["fy"][y, x]],
                       diag=[big(v) for v in diag[y, x]],
                       w=[big(v) for v in witness(dx[x], dy[y])]
                       if core else [], rftol=100, core=core,
                       curve=curve(g, maps, rf, dx[x], dy[y], y, x),
                       mintol=20 if n >= 600 else 60, at=[y, x])

    def radius(fy, dx, dy):
        """semi-major axis of the ellipse with this fy through both ends"""
        if dy == 0:
            return 0.5 * max(1.0, fy)
        den = fy * fy * (1 + 4 * dy * dy) - 4 * dy * dy
        if not den > 0:
            return math.nan
        fx2 = fy * fy / den
        s, r2 = dx / dy, 0.25 + dy * dy
        a, b, d = r2 * (fx2 + s * s * fy * fy), r2 * s * fy * fy, r2 * fy * fy
        return math.sqrt((a + d) / 2 + math.hypot((a - d) / 2, b))

    def extended(g):
        """the diagnostics of mirrored points are those of the quadrant"""
        p = g.parameters
        return getattr(g.diagnostics, "_extended", all(
            len(v) > 1 and v[0] == -v[-1] for v in p.get_vectors()[:2]))

    def curve(g, maps, rf, dx, dy, y, x):
        """the smallest sampled disk, and at every rf what linear
        interpolation of the sampled curve misses the wanted disk by"""
        if g.diagnostics is None or len(g.parameters.dy) == 1 or \
                extended(g) or \
                not np.any(np.isfinite(maps["radius"][y, x])):
            return []
        fy, R = g.diagnostics.get_diagnostic(y, x)
        m, c = int(np.nanargmin(R)), len(rf) // 2
        out = []
        for k, f in enumerate(rf):
            a, b = (fy[:m + 1][::-1], R[:m + 1][::-1]) if k < c else (
                fy[m:], R[m:])
            w = radius(float(np.interp(f, b / R[m], a)), dx, dy)
            miss = abs(w - f * R[m])
            out.append(big(miss if miss == miss else 1e4))
        return [dict(min=big(R[m]), miss=out, ends=[big(R[0]), big(R[-1])])]

    def slope_session(g, args, n):
        maps = maps_of(g)
        dy, dx, _ = g.parameters.get_vectors()
        shape = maps["radius"].shape
        column = float(rng.choice(list(dx)))
        pos = rng.sample([0.0, 0.5, -0.5, column, 2.5,
                          rng.uniform(-0.5, 0.5), rng.uniform(-0.5, 0.5),
                          rng.uniform(-0.5, 0.5)], 3)
        duration = rng.choice([1.0, 0.5, 2.0, 4.0])
        call(g.set_eclipse_parameters, duration, rng.uniform(1, 9),
             rng.choice([0.0, 0.6, 1.0]))
        if rng.random() < 0.5:      # masks do not matter
            call(g.generate_hill_radius_mask, rng.uniform(0.5, 9))
        groups = rng.choice([[3], [1, 2], [2, 1], [1, 1, 1]])
        k, results = 0, []
        for m in groups:
            part = pos[k:k + m]
            k += m
            results.append(call(
                g.add_gradients, np.array([-p * duration for p in part]),
                np.array([rng.choice([0.0, 0.1, 0.3]) for _ in part]),
                np.array([rng.choice([0.5, 1.0]) for _ in part]),
                np.array([rng.choice([0.5, 1.0]) for _ in part]))[0])
        recs = []
        ok = all(r == "ok" for r in results)
        have, data = [], []
        if ok:
            p, _, _, d = g.get_gradients(masked=False, property_masked=False)
            have = [fixed(v, SC) for v in p]
            data = [np.array(v, dtype=float) for v in d]
        # the same positions in another order, unmeasured otherwise
        same, undefined_ok = True, True
        if ok and len(data) == 3:
            order = rng.sample(range(3), 3)
            call(g.set_eclipse_parameters, duration, 3.0, 0.5)
            call(g.add_gradients, np.array([-pos[i] * duration for i in order]),
                 np.array([0.5, 1.0, 0.0]))
            call(g.generate_hill_radius_mask, 1.0)
            _, _, _, d2 = g.get_gradients(masked=False, property_masked=False)
            same = all(np.allclose(data[i], d2[j], rtol=0, atol=1e-12,
                                   equal_nan=True)
                       for j, i in enumerate(order))
            undefined_ok = all(bool(np.all(np.isnan(
                v[np.isnan(maps["radius"])]))) for v in data)
        recs.append(dict(op="slopes", res="ok" if ok else str(results),
                         positions=have, wanted=[fixed(v, SC) for v in pos],
                         same=same, undefined_ok=undefined_ok))
        pts = defined(maps)
        bad = [tuple(int(v) for v in q)
               for q in np.argwhere(np.isnan(maps["radius"]))]
        for p, d in zip(pos, data):
            chosen = rng.sample(pts, min(14 if quick else 40, len(pts))) + \
                rng.sample(bad, min(2, len(bad)))
            origin = [q for q in pts if dx[q[1]] == 0 and dy[q[0]] == 0]
            chosen += origin[:1]
            items = []
            for q in chosen:
                e = point(maps, dx, dy, *q)
                gf = float(d[q])
                e.update(g=big(gf), vertical=False, gf=-1 if gf != gf else gf)
                e["nf"] = 1 if math.isfinite(maps["radius"][q]) and \
                    maps["inclination"][q] < 80 and abs(dy[q[0]]) > .3 else 0
                items.append({k: v for k, v in e.items() if v == v})
            recs.append(dict(op="slope", pos=big(p), pts=items,
                             least=[0, 0, 1]))
        return dict(what="slopes", recs=recs, w=20 * len(pos))

    def session(what, args, n, keep=None):
        if keep is None:
            keep = prop == "C15" and rng.random() < 0.7
        res, g = build(args, n, keep)
        recs = [grid_record(g, res, args, n)]
        if res != "ok":
            if prop == "C21" and recs[0]["core"]:
                recs = [dict(op="slopes", res=res, positions=[], wanted=[0],
                             same=True, undefined_ok=True)]
            return dict(what=what, recs=recs, w=10)
        if prop == "C13":
            recs.append(points_record(g, 16 if quick else 60))
        elif prop == "C15":
            recs += centre_records(g, n, 5 if quick else 15,
                                   well_sampled(args, n, 80))
        elif prop == "C21":
            return slope_session(g, args, n)
        return dict(what=what, recs=recs, w=30)

    items = edges["family"]
    count = {"C13": 80, "C14": 60, "C15": 60, "C21": 50}[prop]
    if not quick:
        count *= 12
    pick = rng.sample(items, min(count // 2, len(items)))
    if prop == "C14":
        pick += rng.sample([c for c in items if c["sx"] == c["sy"] == "zero"],
                           6)
    for c in pick:
        yield session("model %s" % (c,), config(c),
                      rng.choice([150, 200, 301]))
    for _ in range(count // 2):
        mx, my = rng.uniform(1, 5), rng.uniform(1, 5)
        if rng.random() < 0.3:
            sx = sy = 0
        else:
            sx = rng.choice([0, rng.uniform(0.01, 0.9), -mx,
                             rng.uniform(-3, 0)])
            sy = rng.choice([0, rng.uniform(0.01, 0.9), -my,
                             rng.uniform(-3, 0)])
        big_rf = rng.random() < 0.2
        yield session("random", (sx, mx, rng.randrange(2, 6), sy, my,
                                 rng.randrange(2, 6), rng.uniform(1.2, 9),
                                 rng.choice([2, 3, 4, 5]) if not big_rf
                                 else 8),
                      rng.choice([150, 200, 301, 600]))
    if prop == "C15":       # radii between the first samples of the curve
        for _ in range(16 if quick else 200):
            yield session("first samples", (
                rng.uniform(0.05, 0.5), rng.uniform(1, 4), 2,
                rng.uniform(0.3, 1), rng.uniform(1.5, 5), 3,
                rng.choice([1.0001, 1.0003, 1.001, 1.003, 1.01]), 3),
                rng.choice([150, 200, 400]), True)
        for _ in range(12 if quick else 120):
            mx, my = rng.uniform(1, 5), rng.uniform(1, 5)
            yield session("large radii", (
                rng.choice([0, 0.02, 0.3, -mx]), mx, 3,
                rng.choice([0, 0.02, 0.3, -my]), my, 3,
                rng.choice([10, 12, 20, 40, 80]), rng.choice([3, 8])),
                rng.choice([150, 200, 400]))
    # the smallest disks only
    for _ in range(8 if quick else 80):
        yield session("smallest only", (
            rng.choice([0, 0.05, 0.4]), rng.uniform(0.5, 3), 3,
            rng.choice([0, 0.05, 0.4]), rng.uniform(0.5, 3), 3,
            *rng.choice([(1.0, 1), (1.0, 2), (2.5, 1)])),
            rng.choice([150, 300, 600]), True)
    # unusual axes, radii and samplings: close to 0, close to 1, large
    for _ in range(count // 3):
        def axis():
            m = rng.choice([0.3, 0.8, 1, 1.7, 3, 8, 20])
            return (rng.choice([0, 1e-9, 1e-6, 1e-3, 0.01 * m, 0.5 * m, -m,
                                -1e-6, -0.3 * m, -5e-9]), m,
                    rng.choice([1, 2, 2, 3, 4, 7]))
        ax, ay = axis(), axis()
        if rng.random() < 0.2:
            ax = (ax[0], ax[1], 12)
            ay = (ay[0], ay[1], 2)
        if rng.random() < 0.3:
            ax, ay = (0,) + ax[1:], (0,) + ay[1:]
        yield session("unusual", ax + ay + (
            rng.choice([1, 1.00002, 1.0001, 1.001, 1.01, 1.1, 2, 12, 40]),
            rng.choice([1, 2, 3, 6, 13])), rng.choice([100, 150, 400, 1000,
                                                        2500]))
    if prop == "C14":
        for _ in range(8 if quick else 60):
            hx, hy = rng.choice([0.25, 0.5, 0.75]), rng.choice([0.25, 0.5,
                                                                0.75])
            nx = rng.randrange(1 + math.ceil(1 / hx), 7)
            ny = rng.randrange(1 + math.ceil(1 / hy), 7)
            mx, my = hx * (nx - 1), hy * (ny - 1)
            rest = (rng.choice([1.5, 2.0, 4.0]), rng.randrange(2, 5))
            n = rng.choice([150, 200])
            res, full = build((0, mx, nx, 0, my, ny) + rest, n)
            recs = [grid_record(full, res, (0, mx, nx, 0, my, ny) + rest, n)]
            for part, ay, ax in (((hx, mx, nx - 1, 0, my, ny), ny - 1, nx),
                                 ((0, mx, nx, hy, my, ny - 1), ny, nx - 1)):
                res2, g = build(part + rest, n)
                recs.append(grid_record(g, res2, part + rest, n))
                if res == res2 == "ok" and list(recs[0]["shape"][:2]) == \
                        [2 * ny - 1, 2 * nx - 1]:
                    recs.append(dict(op="quadrant", ay=ay, ax=ax,
                                     part=recs[-1]["maps"],
                                     maps=recs[0]["maps"]))
            yield dict(what="quadrants", recs=recs, w=60)
