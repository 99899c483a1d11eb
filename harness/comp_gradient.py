"""C10: measurements and masks of a gradient."""
import random
from fractions import Fraction

TRACE_MODULE = "T_Gradient"


def models(prop, tier):
    cfg = ("SPECIFICATION Spec\nCONSTANTS Cells = %d\nVIEW View\n"
           "INVARIANT Inv\n")
    return [dict(module="MC_Gradient", name="cells%d" % c, edges=c == 1,
                 workers=6, cfg=cfg % c)
            for c in ((1,) if tier == "quick" else (1, 2))]


def assumptions(prop):
    return ["theoretical gradients and the scaled gradient reach the "
            "specification as exact ranks; measurements in binary fractions",
            "a transmission change of 0 is exercised only with a measured "
            "gradient and orbital scale above 0"]


def corruptors(prop):
    def find(s, cond):
        return next((r for r in s["recs"] if cond(r)), None)

    def keep(s):
        for i, r in enumerate(s["recs"]):
            p = s["recs"][i - 1] if i else None
            if i and r["op"] == "set" and r["res"] == "ok" and \
                    r["post"]["mask"] != p["post"]["mask"]:
                r["post"]["mask"] = p["post"]["mask"]
                return s

    def tie(s):
        for r in s["recs"]:
            if r["op"] == "set" and r["res"] == "ok" and \
                    r["post"]["scaled"] in r["post"]["data"]:
                k = r["post"]["data"].index(r["post"]["scaled"])
                r["post"]["mask"][k] = True
                return s

    def partial(s):
        r = find(s, lambda r: r["op"] == "set" and r["res"] != "ok" and
                 r["wf"] and r["post"]["attr"] != r["args"])
        if r:
            r["post"]["attr"] = r["args"]
            return s

    def scale(s):
        r = find(s, lambda r: r["op"] == "set" and r["res"] == "ok" and
                 r["post"]["obs"] > 2000)
        if r:
            r["post"]["obs"] = r["post"]["obs"] // 2
            return s
    return [("mask kept", keep), ("tie masked", tie),
            ("partial change", partial), ("wrong scale", scale)]


def drive(prop, seed, tier, edges):
    import numpy as np
    from GridParameters import GridParameters
    from GridProperty import GridGradient
    from obs import Ranks, call
    rng = random.Random(seed * 1000 + 10)
    nprng = np.random.default_rng(seed * 1000 + 10)
    NAN = float("nan")
    ATTR = ("measured_gradient", "orbital_scale", "transmission_change",
            "measured_error")

    class World:
        def __init__(self, what, units, shape, jitter=None):
            self.what, self.raw = what, []
            self.units = units
            data = np.array([NAN if u == -1 else u / 1024 for u in units])
            if jitter is not None:
                data = data + jitter
            self.generic = jitter is not None
            data = data.reshape(shape)
            gp = GridParameters(0, 1, shape[1], 0, 1, shape[0], 2,
                                (shape[2] + 1) // 2)
            res, self.g = call(GridGradient, data, gp,
                               rng.choice([0, -0.25, 0.5, 1.0]))
            if self.g is None:
                raise RuntimeError("gradient not built: " + res)
            self.log("new", res)

        def log(self, op, res, wf=True, x=None, args=(), exact=False):
            g = self.g
            sres, scaled = call(g.get_scaled_gradient)
            mask = [] if g.mask is None else \
                [bool(v) for v in np.asarray(g.mask).reshape(-1)]
            self.raw.append(dict(
                op=op, res=res, wf=wf, exact=exact,
                x=x or dict(m=0, o=0, t=1, e=0, f=0), args=list(args),
                units=self.units,
                post=dict(data=g.get_data(False).reshape(-1).tolist(),
                          read=np.asarray(g.data).reshape(-1).tolist(),
                          mask=mask, attr=[getattr(g, a) for a in ATTR],
                          scaled=scaled if sres == "ok" else "raised")))

        def set(self, m, o, t, e, x, wf=True, exact=True):
            args = [m, o, 1 if t is None else t, 1 if e is None else e]
            if t is None and e is None:
                res, _ = call(self.g.determine_mask, m, o)
            elif e is None:
                res, _ = call(self.g.determine_mask, m, o, t)
            elif t is None:
                res, _ = call(self.g.determine_mask, m, o, measured_error=e)
            elif rng.random() < 0.5:
                res, _ = call(self.g.determine_mask, m, o, t, e)
            else:
                res, _ = call(self.g.determine_mask, measured_gradient=m,
                              orbital_scale=o, transmission_change=t,
                              measured_error=e)
            self.log("set", res, wf, x, args, exact and not self.generic)

        def set_units(self, m, o, t, e, f=0):
            """m/1024, o/16, t/64, e/8, exact unless rounding decides a tie"""
            if t <= 0 and m * o == 0 and t == 0:
                return
            pow2 = t > 0 and t & (t - 1) == 0
            lhs = m * o * 64
            if not pow2 and lhs == 1024 * 16 * t:
                return
            if f and (not pow2 or o & (o - 1) or m <= 0 or o <= 0):
                return
            exact = pow2 or all(u * 16 * t != lhs for u in self.units)

            def cast(v):
                return rng.choice([v, np.float64(v)] + (
                    [int(v), np.int64(v)] if v == int(v) else []))
            v = m / 1024
            if f:
                v = v * (1 + f * 2.0 ** -rng.randrange(20, 53))
                if v == m / 1024:
                    return
            a = [cast(v), cast(o / 16), cast(t / 64), cast(e / 8)]
            if t == 64 and rng.random() < 0.3:
                a[2] = None
            if e == 8 and rng.random() < 0.3:
                a[3] = None
            self.set(*a, dict(m=m, o=o, t=t, e=e, f=f), exact=exact)

        def set_real(self):
            m, o, t = (rng.uniform(0.02, 0.5), rng.uniform(2, 8),
                       rng.uniform(0.3, 1))
            s = m * o / t
            if 0.8 < s < 1.25:
                return
            e = rng.uniform(0, 2)
            self.set(m, o, t, e, dict(m=round(m * 1024), o=round(o * 16),
                                      t=round(t * 64), e=round(e * 8), f=0),
                     exact=False)

        def set_bad(self):
            a = [0.25, 1.0, 1.0, 1.0]
            k = rng.randrange(4)
            bad = [None, "1", NAN, [0.5], 1j, -0.001]
            if k >= 2:
                bad = bad[1:]
            if k == 2:
                bad += [1.0000001, 2]
            a[k] = rng.choice(bad)
            self.set(*a, dict(m=256, o=16, t=64, e=8, f=0), wf=False)

        def override(self):
            mask = nprng.random(self.g.get_data().shape) < 0.5
            res, _ = call(self.g.set_mask, mask)
            self.log("override", res)

        def touch(self):
            out = self.g.get_data(rng.random() < 0.5)
            out[...] = 0.3
            m = self.g.get_data(True)
            m[...] = NAN
            call(self.g.set_contrast_parameters)
            self.log("touch", "ok")

        def product(self, r):
            """the bounds of m*o/t in exact arithmetic"""
            if r["op"] != "set" or not r["wf"] or r["res"] != "ok":
                return 0.0, 0.0
            m, o, t = (Fraction(float(v)) for v in r["args"][:3])
            p = m * o / t if t else Fraction(0)
            if float(p) == p and r["exact"] and r["x"]["t"] > 0 and \
                    not r["x"]["t"] & (r["x"]["t"] - 1):
                return float(p), float(p)
            return float(p * (1 - Fraction(1, 10 ** 12))), \
                float(p * (1 + Fraction(1, 10 ** 12)))

        def session(self):
            ranks = Ranks()
            for r in self.raw:
                r["lo"], r["hi"] = self.product(r)
                ranks.add(r["lo"])
                ranks.add(r["hi"])
            for r in self.raw:
                p = r["post"]
                for v in p["data"] + p["read"] + p["attr"] + r["args"] + \
                        [p["scaled"]]:
                    if isinstance(v, (int, float, np.number)):
                        ranks.add(v)
            ranks.freeze()

            def rk(v):
                if v is None:
                    return -2
                return ranks.of(v) if isinstance(v, (int, float, np.number)) \
                    else -4
            for r in self.raw:
                p = r["post"]
                r["lo"], r["hi"] = rk(r["lo"]), rk(r["hi"])
                s = p["scaled"]
                p["obs"] = -1 if not isinstance(s, (float, int, np.number)) \
                    or not abs(s) < 100 else round(float(s) * 65536)
                p["data"] = [rk(v) for v in p["data"]]
                p["read"] = [rk(v) for v in p["read"]]
                p["attr"] = [rk(v) for v in p["attr"]]
                p["scaled"] = rk(s)
                r["args"] = [rk(v) for v in r["args"]]
            return dict(what=self.what, recs=self.raw)

    items = edges["cells1"]
    quota = 1500 if tier == "quick" else 9000
    # one session per datum and previous measurement, many measurements in it
    groups = {}
    for e in items:
        groups.setdefault(str((e["data"], e["meas"])), []).append(e)
    chosen = rng.sample(items, min(quota, len(items)))
    for e in chosen:
        n = len(e["data"])
        w = World("model transition", e["data"] * 3,
                  rng.choice([(1, 1, 3 * n), (3 * n, 1, 1)]))
        if e["meas"]["m"] >= 0:
            w.set_units(*(e["meas"][k] for k in "motef"))
        w.set_units(*(e["x"][k] for k in "motef"))
        yield w.session()
    for n in range(200 if tier == "quick" else 2500):
        shape = (rng.randrange(1, 4), rng.randrange(1, 4), rng.choice([1, 3]))
        size = shape[0] * shape[1] * shape[2]
        pool = [rng.randrange(0, 1025) for _ in range(3)] + [-1, 0, 1024, 128]
        if n % 7 == 5:
            pool += [-2, -1024, -40]
        units = [rng.choice(pool) for _ in range(size)]
        jitter = nprng.random(size) * 1e-4 if n % 4 == 3 else None
        w = World("random history", units, shape, jitter)
        for _ in range(rng.randrange(3, 14)):
            op = rng.random()
            if op < 0.45:
                # aim at ties with the data, and at a scaled gradient of 1
                u = rng.choice(units + [1024, 1025, 1023])
                o, t = rng.choice([(16, 64), (8, 32), (32, 64), (16, 32),
                                   (4, 16), (16, 48), (24, 48), (256, 64),
                                   (16, 1), (16, 0)])
                m = max(u, 0) * 16 * max(t, 1) // (o * 64)
                w.set_units(m + rng.choice([0, 0, 0, 1]), o, t,
                            rng.choice([0, 8, 3]))
            elif op < 0.6:
                w.set_real()
            elif op < 0.8:
                w.set_bad()
            elif op < 0.9:
                w.override()
            else:
                w.touch()
        yield w.session()
