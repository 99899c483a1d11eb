"""C07: grid parameters, built and extended."""
import random

TRACE_MODULE = "T_GridParams"


def models(prop, tier):
    cfg = ("SPECIFICATION Spec\nCONSTANTS Mins = {0, 12, 24}\n"
           "Maxs = {0, 12, 24}\nNums = %s\nRfMaxs = %s\nRfNums = %s\n"
           "INVARIANT Inv\nPROPERTY Once\n")
    sets = ("{0, 1, 2, 3, 4}", "{0, 12, 36}", "{0, 1, 3}") \
        if tier == "quick" else \
        ("{0, 1, 2, 3, 4, 5, 7}", "{0, 12, 24, 36}", "{0, 1, 2, 3, 5}")
    return [dict(module="MC_GridParams", name="axes", edges=True, workers=4,
                 cfg=cfg % sets)]


def assumptions(prop):
    return ["axis values reach the specification in units of 2^-6 (exact) or "
            "of 2^-20 of the axis range (arbitrary reals, tolerance 2 units)"]


def corruptors(prop):
    def uneven(s):
        for r in s["recs"]:
            if r["op"] == "new" and r["res"] == "ok" and r["a"]["num_x"] > 2:
                r["post"]["dx"][1] += 5
                return s

    def not_mirrored(s):
        for i, r in enumerate(s["recs"]):
            if r["op"] == "extend" and r["res"] == "ok":
                r["post"]["dy"] = s["recs"][i - 1]["post"]["dy"]
                return s

    def accept(s):
        for r in s["recs"]:
            if r["op"] == "extend" and r["res"] != "ok":
                r["res"] = "ok"
                return s

    def off_centre(s):
        for r in s["recs"]:
            if r["op"] == "extend" and r["res"] == "ok":
                r["post"]["mid"] = False
                return s
    return [("uneven", uneven), ("not mirrored", not_mirrored),
            ("accepted", accept), ("off centre", off_centre)]


def drive(prop, seed, tier, edges):
    import numpy as np
    from GridParameters import GridParameters
    from obs import call
    rng = random.Random(seed * 1000 + 7)
    ORDER = ("min_x", "max_x", "num_x", "min_y", "max_y", "num_y", "max_rf",
             "num_rf")

    def units(v, u):
        q = float(v) / u
        return int(round(q)) if abs(q) < 2e9 else (1 << 30)

    def observe(gp, ux, uy, ur):
        dy, dx, rfa = gp.get_vectors()
        ax, ay = np.asarray(gp.dx), np.asarray(gp.dy)
        nx, ny = len(dx), len(dy)
        vec = (ax.shape == (1, nx, 1) and ay.shape == (ny, 1, 1) and
               bool(np.all(ax.reshape(-1) == dx)) and
               bool(np.all(ay.reshape(-1) == dy)) and
               dx.ndim == 1 and dy.ndim == 1 and rfa.ndim == 1 and
               np.array_equal(np.asarray(gp.rf_array), rfa))
        mid = bool(dx[nx // 2] == 0 and dy[ny // 2] == 0)
        bits = hash((dx.tobytes(), dy.tobytes(), rfa.tobytes())) % 1000003
        return dict(dx=[units(v, ux) for v in dx],
                    dy=[units(v, uy) for v in dy],
                    rf=[units(v, ur) for v in np.asarray(gp.rf).reshape(-1)],
                    rfa=[units(v, ur) for v in rfa],
                    shape=[int(v) for v in gp.grid_shape],
                    slice=[int(v) for v in gp.slice_shape],
                    zx=bool(dx[0] == 0), zy=bool(dy[0] == 0),
                    ext=bool(gp.extendable), vec=bool(vec), mid=mid,
                    bits=bits)

    EMPTY = dict(dx=[], dy=[], rf=[], rfa=[], shape=[], slice=[], zx=False,
                 zy=False, ext=False, vec=False, mid=False, bits=0)

    def run(what, args, wf, ux, uy, ur, tol, extends):
        recs = []
        conv = [args[k] for k in ORDER]
        if rng.random() < 0.5:
            res, gp = call(GridParameters, *conv)
        else:
            res, gp = call(GridParameters, **args)
        a = dict(wf=wf, one=units(1, ur), zx=args["min_x"] == 0,
                 zy=args["min_y"] == 0)
        for k in ORDER:
            u = dict(x=ux, y=uy, f=ur)[k[-1]]
            v = args[k]
            ok = isinstance(v, (int, float, np.integer, np.floating)) and \
                v == v and abs(v) < 1e12
            if k.startswith("num"):
                a[k] = int(v) if ok else 0
            else:
                a[k] = units(v, u) if ok else 0
        recs.append(dict(op="new", res=res, a=a, tol=tol, txt=repr(conv),
                         post=observe(gp, ux, uy, ur) if gp is not None
                         else EMPTY))
        if gp is None:
            return dict(what=what, recs=recs)
        twin = None
        for j in range(extends):
            if wf and rng.random() < 0.2:
                _, twin = call(GridParameters, *conv)
                if twin is not None:
                    call(twin.extend_grid)
                recs.append(dict(op="other", res="ok", tol=tol,
                                 post=observe(gp, ux, uy, ur)))
            res, _ = call(gp.extend_grid)
            recs.append(dict(op="extend", res=res, tol=tol,
                             post=observe(gp, ux, uy, ur)))
        return dict(what=what, recs=recs)

    UNIT = 2.0 ** -6
    model = edges["axes"]
    quota = 2500 if tier == "quick" else 12000
    if len(model) > quota:
        keep = [e for e in model if e["min_x"] == 0 and e["min_y"] == 0]
        keep = rng.sample(keep, min(len(keep), quota // 3))
        model = keep + rng.sample(model, quota - len(keep))
    for e in model:
        m = rng.choice([1, 5, 64 / 12])
        if m == 64 / 12:        # exactly the grid that starts rf at 1
            m = 1
        args = {k: (e[k] if k.startswith("num") else
                    e[k] * UNIT * m) for k in ORDER}
        # rf counts from 1, so its units are chosen to make 12 units one
        args["max_rf"] = e["max_rf"] / 12
        for k in ORDER:
            if isinstance(args[k], float) and args[k].is_integer() and \
                    rng.random() < 0.5:
                args[k] = rng.choice([int, np.int64, np.float32])(args[k])
        for k in ("num_x", "num_y", "num_rf"):
            args[k] = rng.choice([int, int, np.int32, np.int64])(args[k])
        yield run("model", args, True, UNIT * m, UNIT * m, 1 / 12, 0,
                  rng.choice([1, 2, 2]))

    # arbitrary reals and wrong kinds of values
    for n in range(250 if tier == "quick" else 3000):
        lo, hi = {}, {}
        for ax in "xy":
            width = 10 ** rng.uniform(-3, 3)
            start = rng.choice([0, 0, 0, -width, rng.uniform(-5, 5) * width,
                                rng.uniform(0, 2) * width, -0.0,
                                1e-9 * width])
            lo[ax], hi[ax] = start, start + width
        mr = rng.choice([1, 1.5, rng.uniform(1, 20), 10,
                         10 ** rng.uniform(1, 4)])
        args = dict(min_x=lo["x"], max_x=hi["x"], num_x=rng.randrange(1, 120),
                    min_y=lo["y"], max_y=hi["y"], num_y=rng.randrange(1, 120),
                    max_rf=mr, num_rf=rng.randrange(1, 60))
        if n % 25 == 1:
            args[rng.choice(["num_x", "num_y", "num_rf"])] = \
                rng.randrange(300, 1500)
        wf = True
        if n % 4 == 3:
            k = rng.choice(ORDER)
            wf = False
            if k.startswith("num"):
                args[k] = rng.choice([0, -3, 2.0, 2.5, "2", None,
                                      float("nan")])
            elif k == "max_rf":
                args[k] = rng.choice([0.999999, 0, -2, None, "2",
                                      float("nan")])
            else:
                args[k] = rng.choice([None, "1", [1.0], 1j, float("nan")])
        elif n % 16 == 4:
            ax = rng.choice("xy")
            wf = False
            args["min_" + ax], args["max_" + ax] = hi[ax], rng.choice(
                [lo[ax], hi[ax]])
        elif rng.random() < 0.3:
            # sizes for which a grid around 0 is prone to rounding
            args["num_x"] = rng.choice([50, 99, 104, 108])
            args["num_y"] = rng.choice([50, 99, 104, 108])
            for ax in "xy":
                args["min_" + ax] = 0
                args["max_" + ax] = hi[ax] = rng.choice([1, 2, 4])
                lo[ax] = 0
        ux = (hi["x"] - lo["x"]) * 2.0 ** -20
        uy = (hi["y"] - lo["y"]) * 2.0 ** -20
        ur = max(mr, 1.5) * 2.0 ** -20
        yield run("arbitrary reals", args, wf, ux, uy, ur, 2,
                  rng.choice([1, 2, 3]))
