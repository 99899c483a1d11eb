"""C19, C20, C22, C23, C25: a shallot grid in use (gradients, fit, masks)."""
import math
import random

TRACE_MODULE = "T_Session"
PROPS = ("C19", "C20", "C22", "C23", "C25")


def models(prop, tier):
    n = 5 if tier == "quick" else 6
    return [dict(module="MC_Session", name="calls", edges=True, workers=1,
                 cfg="SPECIFICATION Spec\nCONSTANTS MaxLen = %d\n"
                     "MaxGrads = 3\nVIEW View\nINVARIANT Inv\n"
                     "PROPERTY Frame\nACTION_CONSTRAINT Emit\n" % n)]


def assumptions(prop):
    a = ["map values reach the specification as exact ranks, measurements "
         "rounded to 10^-12"]
    if prop in ("C19", "C22"):
        a.append("scaled gradients within 10^-7 of 1, a transverse velocity "
                 "of 0 and a transmission change of 0 may be rejected or not")
        a.append("eclipse parameters are set again after a re-scaling "
                 "without gradients")
    if prop == "C22":
        a.append("no measured error of 0 in a weighted fit")
    if prop == "C23":
        a.append("solutions are asked for once a gradient fit was determined")
    return a


def corruptors(prop):
    def find(s, cond):
        return next((r for r in s["recs"][1:] if cond(r)), None)

    def rejected(s):
        r = find(s, lambda r: r["op"] in ("add", "ecl") and r["res"] != "ok")
        if r:
            r["res"] = "ok"
            return s

    def lost(s):
        r = find(s, lambda r: len(r["post"]["grads"]) > 1)
        if r:
            r["post"]["grads"].reverse()
            if r["post"]["grads"][0] != r["post"]["grads"][-1]:
                return s

    def scale(s):
        r = find(s, lambda r: r["op"] == "add" and r["post"]["grads"])
        if r and r["post"]["grads"][-1]["scale"]:
            g = r["post"]["grads"][-1]
            g["scale"] = [g["scale"][0], g["scale"][1] ^ 2048] + g["scale"][2:]
            return s

    def comb(s):
        r = find(s, lambda r: len(r["post"]["comb"]) > 3)
        if r:
            r["post"]["comb"].pop()
            return s

    def read(s):
        r = find(s, lambda r: r["op"] == "read" and r["res"] == "ok" and
                 -1 in r["out"]["data"] and
                 r["out"]["data"] != s["recs"][0]["base"][r["a"]["map"]])
        if r:
            r["out"]["data"] = s["recs"][0]["base"][r["a"]["map"]]
            return s

    def stale(s):
        for i, r in enumerate(s["recs"][1:], 1):
            p = s["recs"][i - 1]["post"]
            if r["post"]["nofit"] and not p["nofit"]:
                r["post"].update(nofit=False, fit=p["fit"])
                return s

    def value(s):
        r = find(s, lambda r: r["op"] == "fit" and r["out"]["samples"])
        if r:
            f = r["out"]["samples"][0]["fit"]
            r["out"]["samples"][0]["fit"] = ([0] * 3 + f)[-3:] \
                if len(f) < 3 else f[:-1] + [f[-1] ^ 64]
            return s

    def order(s):
        r = find(s, lambda r: r["op"] == "extract" and r["res"] == "ok" and
                 len({x[0] for x in r["out"]["sols"]}) > 1)
        if r:
            r["out"]["sols"].reverse()
            return s

    def neighbour(s):
        r = find(s, lambda r: r["op"] == "extract" and r["res"] == "ok" and
                 len({x[1] for x in r["out"]["sols"]}) > 1)
        if r:
            v = [x[1] for x in r["out"]["sols"]]
            for x, y in zip(r["out"]["sols"], v[1:] + v[:1]):
                x[1] = y
            return s

    def point(s):
        r = find(s, lambda r: r["op"] == "point" and r["res"] == "ok" and
                 r["out"]["disk"][0] >= 0)
        if r:
            r["out"]["disk"][0] += 1
            return s

    def outside(s):
        r = find(s, lambda r: r["op"] == "point" and r["res"] != "ok")
        if r:
            r["res"] = "ok"
            return s
    return {"C19": [("accepted", rejected), ("order", lost),
                    ("scale", scale)],
            "C20": [("combined", comb), ("read", read)],
            "C22": [("stale fit", stale), ("value", value)],
            "C23": [("order", order), ("neighbour", neighbour)],
            "C25": [("point", point), ("outside", outside)]}[prop]


def relevant(prop, sessions):
    ops = {"C23": ("extract",), "C25": ("point",)}.get(prop)
    return sum(1 for s in sessions for r in s["recs"]
               if not ops or r["op"] in ops)


def drive(prop, seed, tier, edges):
    import numpy as np
    from GridParameters import GridParameters
    from RingSystem import RingSystem
    from Shallot import ShallotGrid
    from obs import big, call
    rng = random.Random(seed * 1000 + 19)
    quick = tier == "quick"
    NAN = float("nan")
    GRIDS = [((0, 1, 2, 0, 1, 2, 2, 2), 60),
             ((-1, 2, 3, 0.25, 1.5, 2, 3, 2), 60),
             ((0, 1.5, 2, 0, 1, 2, 2.5, 2), 60),
             ((-1, 1, 3, -1, 1, 3, 1.8, 2), 60),
             ((0.2, 1.2, 2, -0.5, 1, 3, 4, 3), 60),
             ((-2, 2, 5, -1.5, 1.5, 4, 3, 4), 60)]
    MAPS = ("radius", "inclination", "tilt", "fx", "fy", "diag")

    def orbital(v, u):
        return (6 - 2 * u) / (12 - 12 * u + 3 * math.pi * u) * math.pi / v

    class Values:
        """An array or number that becomes ranks at the end."""

        def __init__(self, a):
            self.a = np.array(a, dtype=float)

    class World:
        def __init__(self, what, grid=None):
            self.what = what
            args, n = grid or rng.choice(GRIDS)
            res, self.g = call(ShallotGrid, GridParameters(*args), n,
                               logging_level=50)
            if self.g is None:
                raise RuntimeError("grid not built: " + res)
            g = self.g
            self.get = dict(radius=g.get_disk_radius,
                            inclination=g.get_inclination, tilt=g.get_tilt,
                            fx=g.get_fx_map, fy=g.get_fy_map,
                            diag=g.get_diagnostic_map)
            self.base = {k: np.array(f(False, False)) for k, f in
                         self.get.items()}
            self.shape = self.base["radius"].shape
            dy, dx, rf = g.parameters.get_vectors()
            full = np.ones(self.shape)
            axes = dict(dx=dx[None, :, None] * full,
                        dy=dy[:, None, None] * full,
                        rf=rf[None, None, :] * full)
            base = {k: Values(v.reshape(-1)) for k, v in
                    {**self.base, **axes}.items()}
            base["shape"] = list(self.shape)
            self.recs = [dict(op="init", res="ok", a={}, out={}, base=base,
                              post=self.post())]
            self.ecl = None
            self.model = []     # the driver's own idea of the gradients

        def post(self):
            g = self.g
            grads = []
            for x in (g.gradients or []):
                theo = np.array(x.get_data(False), dtype=float)
                scaled = call(x.get_scaled_gradient)[1]
                mask = x.mask if x.mask is not None else \
                    np.zeros(self.shape, dtype=bool)
                grads.append(dict(
                    pos=big(x.position), meas=num(x.measured_gradient),
                    err=num(x.measured_error), tc=num(x.transmission_change),
                    scale=num(x.orbital_scale), scaled=num(scaled),
                    srank=Values(NAN if scaled is None else scaled),
                    theo=Values(theo.reshape(-1)),
                    mask=where(mask)))
            fit = g.get_gradient_fit(False, False)
            comb = g.get_combined_mask()
            rec = dict(grads=grads, nofit=fit is None,
                       fit=[] if fit is None else Values(fit.reshape(-1)),
                       comb=where(comb),
                       radius=Values(g.get_disk_radius(False, False)
                                     .reshape(-1)),
                       mradius=Values(g.get_disk_radius(True, True)
                                      .reshape(-1)))
            comb[...] = True        # a returned array is the caller's
            return rec

        def log(self, op, res, a, out=None, **kw):
            a.setdefault("wf", True)
            self.recs.append(dict(op=op, res=res, a=a, out=out or {},
                                  post=self.post()))

        # ---- operations
        def eclipse(self, fault=None):
            d = rng.choice([1.0, 0.5, 2, rng.uniform(0.3, 5)])
            v = rng.choice([1.0, 4, rng.uniform(1, 9)])
            u = rng.choice([0, 1.0, 0.6, rng.uniform(0, 1)])
            wf = True
            if fault == "range":
                k = rng.randrange(3)
                if k == 0:
                    d = rng.choice([-1.0, -1e-9, NAN])
                elif k == 1:
                    v = rng.choice([-1.0, -1e-9, NAN])
                else:
                    u = rng.choice([-0.1, 1.01, 2, NAN])
            elif fault == "type":
                wf = False
                bad = rng.choice(["1", None, [1.0], np.array([1.0])])
                k = rng.randrange(2)
                d, v = (bad, v) if k else (d, bad)
            elif fault == "late":       # only the last one is wrong
                u = rng.choice([-0.1, 1.01, NAN])
            res, _ = call(self.g.set_eclipse_parameters, d, v, u)
            a = dict(wf=wf, d=num(d) if wf else [], v=num(v) if wf else [],
                     u=num(u))
            self.log("ecl", res, a)
            if res == "ok":
                self.ecl = (d, v, u)

        def add(self, n=1, fault=None, positions=None, default=False,
                want=None):
            d, v, u = self.ecl or (1.0, 2.0, 0.5)
            pos = positions or [rng.choice([0.0, 0.5, -0.5,
                                            rng.uniform(-0.6, 0.6)])
                                for _ in range(n)]
            times = [-p * d for p in pos]
            tc = [rng.choice([1.0, 0.5, rng.uniform(0.2, 1)])
                  for _ in range(n)]
            if default:
                tc = [1.0] * n
            want = want or [
                rng.choice([0, 0.05, 0.3, 0.7, 0.95, rng.random() * 0.99])
                for _ in range(n)]
            meas = [w * t / orbital(v, u) if v else w
                    for w, t in zip(want, tc)]
            err = [rng.choice([1.0, 0.5, rng.uniform(0.1, 3),
                               10 ** rng.uniform(-4, -2),
                               10 ** rng.uniform(-4, 2.5)])
                   for _ in range(n)]
            wf = True
            k = rng.randrange(n) if n else 0
            if fault == "late":
                k = n - 1
                fault = rng.choice(["steep", "range"])
            if fault == "steep":
                meas[k] = rng.choice([1.2, 3.0]) * tc[k] / orbital(v, u)
            elif fault == "range":
                j = rng.randrange(3)
                if j == 0:
                    meas[k] = rng.choice([-0.1, NAN])
                elif j == 1:
                    err[k] = rng.choice([-0.1, NAN])
                else:
                    tc[k] = rng.choice([-0.2, 1.1, NAN])
            arrays = [np.array(x, dtype=float) for x in (times, meas, err, tc)]
            if fault == "shape":
                j = rng.randrange(4)
                arrays[j] = np.append(arrays[j], 0.1)
                wf = False
            elif fault == "type":
                j = rng.randrange(4)
                arrays[j] = rng.choice([
                    list(arrays[j]), arrays[j].astype("float32"),
                    arrays[j][None, :], "gradients"])
                wf = False
            args = list(arrays)
            if default and fault is None:
                err, args = [1.0] * n, args[:2]
            elif fault is None and rng.random() < 0.2:
                err, args[2] = [1.0] * n, None
            res, _ = call(self.g.add_gradients, *args)
            for x in arrays:
                if isinstance(x, np.ndarray):
                    x[...] = 0.123      # the caller's arrays stay the caller's
            self.log("add", res, dict(
                wf=wf, times=[num(x) for x in times],
                meas=[num(x) for x in meas], err=[num(x) for x in err],
                tc=[num(x) for x in tc]))

        def remove(self, idx, fault=None):
            wf, n = True, len(self.g.gradients or [])
            arr = np.array(idx, dtype="int64")
            if fault == "type":
                wf = False
                arr = rng.choice([list(range(n)), np.zeros(1),
                                  np.zeros((1, 1), dtype="int64"),
                                  np.zeros(1, dtype="int32"), 0, None])
                idx = []
            elif fault == "range":
                idx = [rng.choice([n, n + 3, -1])]
                if rng.random() < 0.6 and n:
                    idx.insert(rng.randrange(2), rng.randrange(n))
                arr = np.array(idx, dtype="int64")
            res, _ = call(self.g.remove_gradients, arr)
            self.log("remove", res, dict(wf=wf, idx=[int(i) for i in idx]))

        def scale(self, what, fault=None):
            n = len(self.g.gradients or [])
            d, v, u = self.ecl or (1.0, 2.0, 0.5)
            hasv, hasu = what in ("v", "both"), what in ("u", "both")
            hastc = what == "tc" or (what == "both" and rng.random() < 0.5)
            if fault in ("shape", "late", "steep"):
                hastc = True
            nv = v * rng.choice([1, 1.2, 2]) if hasv else None
            nu = rng.choice([0.0, 0.5, 1.0, rng.random()]) if hasu else None
            tc = [rng.choice([1.0, rng.uniform(0.6, 1)]) for _ in range(n)]
            wf = True
            if fault == "range":
                j = rng.randrange(3)
                if j == 0:
                    hasv, nv = True, rng.choice([-1.0, NAN, -1e-9])
                elif j == 1:
                    hasu, nu = True, rng.choice([-0.5, 1.5, NAN])
                else:
                    hastc = True
                    tc[rng.randrange(n)] = rng.choice([-0.5, 1.2, NAN, -1.0])
            elif fault == "late":
                tc[-1] = rng.choice([-0.5, -1.0, 1e-9])
            elif fault == "steep":
                if rng.random() < 0.5:
                    hasv, nv = True, max(v * 1e-3, 1e-3)
                else:
                    tc[rng.randrange(n)] = 1e-9
            arr = np.array(tc, dtype=float)
            if fault == "shape":
                arr = rng.choice([np.ones(n + 1), np.ones(max(0, n - 1)),
                                  np.ones((n, 1))])
                wf = False
            elif fault == "type":
                wf = False
                j = rng.randrange(3)
                if j == 0:
                    hasv, nv = True, "1"
                elif j == 1:
                    hasu, nu = True, [0.5]
                else:
                    hastc, arr = True, rng.choice([list(tc), "1",
                                                   arr.astype("float32")])
            kw = {}
            if hasv:
                kw["transverse_velocity"] = nv
            if hasu:
                kw["limb_darkening"] = nu
            if hastc:
                kw["transmission_changes"] = arr
            res, _ = call(self.g.update_gradient_scaling, **kw)
            if isinstance(arr, np.ndarray):
                arr[...] = 0.321
            self.log("scale", res, dict(
                wf=wf, hasv=hasv, hasu=hasu, hastc=hastc,
                v=num(nv) if wf and hasv else [],
                u=num(nu) if wf and hasu else [], tc=[num(t) for t in tc]))
            if res == "ok" and self.ecl:
                self.ecl = (d, nv if hasv else v, nu if hasu else u)
            if not n:
                self.eclipse()

        def fit(self, weighted=None):
            if weighted is None:
                weighted = rng.random() < 0.6
            kw = {} if weighted and rng.random() < 0.5 else \
                dict(weighted=weighted)
            res, _ = call(self.g.determine_gradient_fit, **kw)
            samples = []
            grads = self.g.gradients or []
            f = self.g.get_gradient_fit(False, False)
            if f is not None and grads:
                theo = [np.array(x.get_data(False)) for x in grads]
                ok = np.argwhere(np.isfinite(sum(theo)) & np.isfinite(f))
                for q in rng.sample([tuple(int(v) for v in q) for q in ok],
                                    min(4, len(ok))):
                    samples.append(dict(fit=big(f[q]),
                                        inv=[big(1 / x.measured_error)
                                             if x.measured_error else []
                                             for x in grads],
                                        t=[big(t[q]) for t in theo]))
            self.log("fit", res, dict(weighted=weighted),
                     dict(samples=samples))

        def hill(self, fault=None):
            R = self.base["radius"]
            ok = R[np.isfinite(R)]
            h = rng.choice([float(rng.choice(list(ok))), 0.0, 0.4,
                            float(ok.min()), float(ok.max()), 1e6,
                            rng.uniform(0.5, float(ok.max()))])
            wf = True
            if fault:
                h = rng.choice([-0.1, NAN, -1e-12, "1", None])
                wf = not (h is None or isinstance(h, str))
            res, _ = call(self.g.generate_hill_radius_mask, h)
            self.log("hill", res, dict(wf=wf, h=num(h) if wf else [],
                                       hrank=Values(h if wf else NAN)))

        def read(self, name=None):
            name = name or rng.choice(MAPS)
            masked, own = rng.random() < 0.6, rng.random() < 0.5
            args, wf = (masked, own), True
            if rng.random() < 0.15:
                wf, args = False, rng.choice([("yes", own), (masked, 1),
                                              (None, own)])
            elif own and rng.random() < 0.5:
                args = (masked,)
            res, out = call(self.get[name], *args)
            data = Values([]) if res != "ok" else Values(out.reshape(-1))
            if res == "ok":
                out[...] = -7.0
            self.log("read", res, dict(wf=wf, map=name, masked=masked,
                                       own=own), dict(data=data))

        def grads(self):
            if self.g.gradients is None:
                return
            masked, own = rng.random() < 0.5, rng.random() < 0.5
            res, out = call(self.g.get_gradients, masked, own)
            o = dict(pos=[], scaled=[], err=[], data=[])
            if res == "ok":
                o = dict(pos=[num(v) for v in out[0]],
                         scaled=[num(v) for v in out[1]],
                         err=[num(v) for v in out[2]],
                         data=[Values(d.reshape(-1)) for d in out[3]])
                for x in out:
                    x[...] = -7.0
            self.log("grads", res, dict(masked=masked, own=own), o)

        def getfit(self):
            masked, own = rng.random() < 0.5, rng.random() < 0.5
            res, out = call(self.g.get_gradient_fit, masked, own)
            data = [] if out is None else Values(out.reshape(-1))
            if out is not None:
                out[...] = -7.0
            self.log("getfit", res, dict(masked=masked, own=own),
                     dict(data=data))

        def extract(self, n=None):
            most = int(np.sum(~self.g.get_combined_mask()))
            hasfit = self.g.get_gradient_fit() is not None
            a = dict(all=False, n=0, wf=True)
            if n is None:
                k = rng.random()
                if k < 0.2:
                    a["all"], arg = True, None
                elif k < 0.35:
                    arg = most + rng.randrange(1, 3)
                elif k < 0.45:
                    arg = rng.choice([-1, 1.5, "2", -3])
                    a["wf"] = isinstance(arg, int)
                else:
                    arg = rng.choice([0, most, rng.randint(0, most),
                                      rng.randint(0, most)])
            else:
                arg = n
            if isinstance(arg, int):
                a["n"] = arg
            args = () if arg is None and rng.random() < 0.5 else (arg,)
            res, out = call(self.g.extract_solutions, *args)
            o = dict(sols=[], usable=True)
            if res == "ok" and hasfit:
                cols = [np.array(x, dtype=float) for x in out]
                o["sols"] = [[Values(c[k]) for c in cols]
                             for k in range(len(cols[0]))]
                for k in range(min(3, len(cols[0]))):
                    R, inc, tilt = (float(c[k]) for c in cols[1:4])
                    ok, system = call(
                        RingSystem, 0.1, np.array([0.0, R / 2]),
                        np.array([R / 3, R]), np.array([0.5, 1.0]), inc, tilt,
                        logging_level=50)
                    o["usable"] &= ok == "ok"
                for x in out:
                    x[...] = -7.0
            self.log("extract", res, a, o)

        def point(self):
            idx = [rng.randrange(n) for n in self.shape]
            wf = True
            k = rng.random()
            if k < 0.12:
                j = rng.randrange(3)
                idx[j] = rng.choice([-1, self.shape[j], self.shape[j] + 4,
                                     -self.shape[j]])
            elif k < 0.18:
                wf = False
            masked = rng.random() < 0.6
            args = list(idx)
            if not wf:
                args[rng.randrange(3)] = rng.choice([0.0, "0", None])
            if not masked or rng.random() < 0.5:
                args.append(masked)
            if k > 0.9:
                args[:3] = [np.int64(v) for v in args[:3]]
            res, out = call(self.g.get_grid_point_data, *args)
            o = dict(disk=[], grid=[], pos=[], grad=[])
            if res == "ok":
                disk, grid, (pos, grad) = out
                o = dict(disk=[Values(v) for v in disk],
                         grid=[Values(v) for v in grid],
                         pos=[num(v) for v in (pos if pos is not None
                                               else [])],
                         grad=[Values(v) for v in (grad if grad is not None
                                                   else [])])
            self.log("point", res, dict(wf=wf, y=idx[0], x=idx[1], r=idx[2],
                                        masked=masked), o)

        def session(self):
            found = []

            def collect(x):
                if isinstance(x, Values):
                    found.append(x)
                elif isinstance(x, dict):
                    for v in x.values():
                        collect(v)
                elif isinstance(x, list):
                    for v in x:
                        collect(v)
            collect(self.recs)
            pool = np.concatenate([v.a.reshape(-1) for v in found])
            order = np.unique(pool[~np.isnan(pool)])

            def rank(x):
                if isinstance(x, Values):
                    flat = x.a.reshape(-1)
                    r = [-1 if v != v else int(k) for v, k in
                         zip(flat, np.searchsorted(order, flat))]
                    return r[0] if x.a.ndim == 0 else r
                if isinstance(x, dict):
                    return {k: rank(v) for k, v in x.items()}
                if isinstance(x, list):
                    return [rank(v) for v in x]
                return x
            return dict(what=self.what, recs=rank(self.recs),
                        w=len(self.recs))

    def num(x):
        return [] if x is None else big(x)

    def where(mask):
        return [int(k) + 1 for k in np.flatnonzero(np.asarray(mask))]

    positions = {1: [0.21], 2: [-0.37]}
    items = [h for h in edges["calls"] if len(h) >= 3]
    quota = 170 if quick else 4000
    chosen = rng.sample(items, min(quota, len(items)))
    want = {"C22": ("fit",), "C23": ("extract",), "C25": ("point",),
            "C19": ("add", "scale", "remove"), "C20": ("read", "hill")}[prop]
    chosen += rng.sample([h for h in items if h[-1]["op"] in want and
                          (prop != "C23" or any(x["op"] == "fit" for x in h))],
                         30 if quick else 300)
    for hist in chosen:
        w = World("model history")
        for h in hist:
            fault = h.get("fault", "none")
            fault = None if fault == "none" else fault
            op = h["op"]
            if op == "ecl":
                w.eclipse(fault)
            elif op == "add":
                w.add(len(h["ids"]), fault,
                      positions=[p for i in h["ids"] for p in positions[i]])
            elif op == "remove":
                w.remove([k - 1 for k in h["gone"]], fault)
            elif op == "scale":
                w.scale(h["what"], fault)
            elif op == "fit":
                w.fit(h["w"])
            elif op == "hill":
                w.hill(fault)
            else:
                getattr(w, op)()
        # look at everything in the end
        w.read()
        if prop == "C23":
            w.fit()
            w.extract()
            w.extract()
        elif prop == "C25":
            w.point()
            w.point()
        elif prop == "C22":
            w.getfit()
        yield w.session()

    # every kind of change after a fit
    changes = ["ecl", "add", "remove", "hill", "read", "grads", "extract",
               "point", "fit"] + [("scale", x) for x in
                                  ("v", "u", "tc", "both", "none")] + \
        [("bad", x, f) for x in ("ecl", "add", "remove", "scale")
         for f in ("type", "range")]
    rounds = (4 if prop == "C22" else 1) * (1 if quick else 12)
    for change in changes * rounds:
        w = World("change after a fit: %s" % (change,))
        w.eclipse()
        w.add(rng.randrange(1, 4))
        w.fit()
        n = len(w.g.gradients or [])
        if change == "remove":
            w.remove([rng.randrange(n)] if n else [0])
        elif change == "ecl":
            w.eclipse()
        elif change[0] == "scale":
            w.scale(change[1])
        elif change[0] == "bad":
            if change[1] == "ecl":
                w.eclipse(change[2])
            elif change[1] == "add":
                w.add(2, change[2])
            elif change[1] == "remove":
                w.remove([], change[2])
            elif n:
                w.scale("both", change[2])
        else:
            getattr(w, change)()
        w.getfit()
        yield w.session()

    # many gradients, of which few mask anything
    for _ in range(6 if quick else 60):
        w = World("many gradients")
        w.eclipse()
        n = rng.choice([9, 12, 17, 34])
        k = rng.choice([0, 0, n - 1, rng.randrange(n)])
        w.add(n, want=[0.9 if i == k else rng.choice([0, 0.01, 0.05])
                       for i in range(n)])
        todo = [w.hill, w.read, w.grads, w.fit, w.point, w.getfit] + [
            lambda x=x: w.scale(x) for x in ("v", "u", "tc")]
        for op in rng.sample(todo, 5):
            op()
        n = len(w.g.gradients or [])
        if n:
            w.remove(rng.sample(range(n), rng.choice([1, 2, n // 2])))
        w.extract()
        w.read()
        yield w.session()
    if prop == "C23":
        for _ in range(2 if quick else 20):
            w = World("many solutions", ((-2, 2, 9, -1.5, 1.5, 8, 3, 5), 60))
            w.eclipse()
            w.add(rng.randrange(1, 3), want=rng.choice(
                [[0.0, 0.0], [0.05, 0.0]]))
            w.fit()
            w.extract(rng.choice([None, 300]))
            w.extract(int(np.sum(~w.g.get_combined_mask())))
            yield w.session()

    weights = {"ecl": 1, "add": 5, "badadd": 2, "remove": 2, "badremove": 1,
               "scale": 2, "badscale": 2, "fit": 3, "hill": 2, "badhill": 0.5,
               "read": 2, "grads": 1, "getfit": 1, "extract": 1, "point": 1}
    for name in {"C19": ("add", "badadd", "scale", "badscale", "remove"),
                 "C20": ("hill", "read", "grads"), "C22": ("fit", "getfit"),
                 "C23": ("extract", "fit"), "C25": ("point",)}[prop]:
        weights[name] *= 3
    FAULTS = ["type", "range", "late", "shape", "steep"]
    count = 90 if quick else 1500
    for k in range(count):
        long = k >= count - count // 15
        most = 14 if long else 4
        w = World("long random history" if long else "random history")
        if rng.random() < 0.9 or long:
            w.eclipse()
        if long:
            w.add(rng.randrange(4, 12))
        for _ in range(rng.randrange(4, 14)):
            op = rng.choices(list(weights), list(weights.values()))[0]
            n = len(w.g.gradients or [])
            if op == "ecl":
                w.eclipse(rng.choice([None, None, "range", "type", "late"]))
            elif op == "add":
                if n < most:
                    w.add(rng.choice([1, 1, 2, 3, 0]),
                          default=rng.random() < 0.2)
            elif op == "badadd":
                w.add(rng.choice([1, 2, 3]), rng.choice(FAULTS))
            elif op == "remove":
                idx = [rng.randrange(n) for _ in
                       range(rng.randrange(0, n + 2))] if n else [0]
                w.remove(idx)
            elif op == "badremove":
                w.remove([], rng.choice(["type", "range"]))
            elif op == "scale":
                w.scale(rng.choice(["v", "u", "tc", "both", "none"]))
            elif op == "badscale":
                if n:
                    w.scale(rng.choice(["v", "u", "tc", "both"]),
                            rng.choice(FAULTS))
            elif op == "badhill":
                w.hill(True)
            else:
                getattr(w, op)()
        w.read()
        yield w.session()
