"""C03: a single ring under assignment histories."""
import random

TRACE_MODULE = "T_Ring"
NAN, NINF, PINF, BAD = -1, -2, 1000000000, -9
FIELDS = dict(inner="inner_radius", outer="outer_radius",
              trans="transmission", inc="inclination", tilt="tilt")


def models(prop, tier):
    cfg = ("SPECIFICATION Spec\nCONSTANT Part = \"%s\"\nINVARIANT Inv\n"
           "PROPERTY Frame\nVIEW View\nCONSTRAINT Small\n"
           "ACTION_CONSTRAINT Emit\n")
    return [dict(module="MC_Ring", name=p, edges=True, workers=1, cfg=cfg % p)
            for p in ("radii", "angles")]


def assumptions(prop):
    return ["numbers reach the specification as exact ranks"]


def corruptors(prop):
    def accept_bad(s):
        for r in s["recs"]:
            if r["op"] == "set" and r["res"] != "ok" and r["v"] == NAN:
                r["res"] = "ok"
                return s

    def partial(s):
        for r in s["recs"]:
            if r["op"] == "set" and r["res"] != "ok":
                r["post"]["tilt"] = r["k"]["m180"]
                if s["recs"][0]["post"]["tilt"] != r["post"]["tilt"]:
                    return s

    def reject_good(s):
        for i, r in enumerate(s["recs"][1:], 1):
            if r["res"] == "ok":
                r["res"] = "ValueError"
                r["post"] = s["recs"][i - 1]["post"]
                return s

    def ignored(s):
        for i, r in enumerate(s["recs"][1:], 1):
            if r["res"] == "ok" and r["post"] != s["recs"][i - 1]["post"]:
                r["post"] = s["recs"][i - 1]["post"]
                return s
    return [("accepted invalid", accept_bad), ("partial change", partial),
            ("rejected valid", reject_good), ("ignored assignment", ignored)]


def drive(prop, seed, tier, edges):
    import numpy as np
    from Ring import Ring
    from obs import Ranks, call
    rng = random.Random(seed * 1000 + 3)
    consts = dict(zero=0.0, one=1.0, ninety=90.0, m180=-180.0, p180=180.0,
                  eps=1e-16)
    bad = ["1", None, [1.0], 1j, (1,), {}]

    def concrete(name):
        if name == "bad":
            return rng.choice(bad)
        fixed = dict(consts, m181=rng.choice([-181.0, -180.0000001, -1e9]),
                     m1=rng.choice([-1, -0.5, -1e-12]),
                     half=rng.choice([0.5, 0.25, 1e-3, 0.999999]),
                     two=rng.choice([2, 1.0000001, 30.5, 89.9]),
                     n91=rng.choice([91, 90.0001, 179.5]),
                     p181=rng.choice([181, 180.00001, 1e12]),
                     nan=float("nan"), pinf=float("inf"), ninf=float("-inf"))
        v = fixed[name]
        return cast(v)

    def cast(v):
        pick = rng.random()
        if v == v and abs(v) < 1e6 and float(v).is_integer():
            if pick < 0.3:
                return rng.choice([int, np.int64, np.int32])(v)
            if pick < 0.4:
                return rng.choice([np.float32, np.float16])(v)
        if pick > 0.7:
            return np.float64(v)
        if pick > 0.65 and v == v:
            return np.longdouble(v)
        return v

    def isnum(v):
        return isinstance(v, (int, float, np.integer, np.floating))

    def project(ring):
        return {k: getattr(ring, a) for k, a in FIELDS.items()}

    def run(ops):
        """ops: ('new', dict) and ('set', field, value), concrete values"""
        raw, ring = [], None
        for op in ops:
            if op[0] == "new":
                a = op[1]
                if rng.random() < 0.5:
                    res, ring = call(Ring, a["inner"], a["outer"], a["trans"],
                                     a["inc"], a["tilt"])
                else:
                    res, ring = call(Ring, inner_radius=a["inner"],
                                     outer_radius=a["outer"],
                                     transmission=a["trans"],
                                     inclination=a["inc"], tilt=a["tilt"])
                raw.append(dict(op="new", args=a, res=res,
                                post=project(ring) if ring else None))
            elif ring is not None:
                res, _ = call(setattr, ring, FIELDS[op[1]], op[2])
                raw.append(dict(op="set", field=op[1], v=op[2], res=res,
                                post=project(ring)))
        ranks = Ranks()
        for v in consts.values():
            ranks.add(v)
        for r in raw:
            for v in list(r.get("args", {}).values()) + [r.get("v", 0)] + \
                    list((r["post"] or {}).values()):
                if isnum(v):
                    ranks.add(v)
        ranks.freeze()

        def rk(v):
            if not isnum(v):
                return BAD
            if v == float("inf"):
                return PINF
            if v == float("-inf"):
                return NINF
            return ranks.of(v)
        k = {n: ranks.of(v) for n, v in consts.items()}
        recs = []
        for r in raw:
            r["txt"] = "%s" % ({f: repr(v) for f, v in r["args"].items()}
                               if r["op"] == "new" else repr(r["v"]))
            r["k"] = k
            if r["op"] == "new":
                r["args"] = {f: rk(v) for f, v in r["args"].items()}
            else:
                r["v"] = rk(r["v"])
            r["post"] = {f: rk(v) for f, v in r["post"].items()} \
                if r["post"] else {f: BAD for f in FIELDS}
            recs.append(r)
        return recs

    for part in ("radii", "angles"):
        batch = []
        for path in edges[part]:
            ops = []
            for step in path:
                if step["op"] == "new":
                    ops.append(("new", {f: concrete(n)
                                        for f, n in step["args"].items()}))
                else:
                    ops.append(("set", step["field"], concrete(step["value"])))
            # values of one name must be the same value within a path, except
            # that this does not matter to the specification (ranks)
            yield dict(what="model transition", recs=run(ops))
    pool = [0, 0.0, -0.0, 1e-17, 1e-16, 2e-16, 1e-3, 0.5, 1, 1.5, 2, 2.0,
            3.25, 45, 89.999, 90, 90.001, 100, 179.99, 180, 180.01, 1e3, -1,
            -1e-3, -90, -180, -180.5, float("nan"), float("inf"),
            float("-inf"), 5e-324, 1e300]
    for _ in range(150 if tier == "quick" else 2000):
        values = rng.sample(pool, 14) + [rng.uniform(0, 5) for _ in range(4)]

        def pick(f):
            if rng.random() < 0.05:
                return rng.choice(bad)
            if rng.random() < 0.5:
                return cast(rng.choice(dict(
                    inner=[0, 1e-16, 0.5, 1, 1.5, 2], outer=[1, 1.5, 2, 3],
                    trans=[0, 0.5, 1], inc=[0, 45, 90],
                    tilt=[-180, 0, 180, 33.3])[f]))
            return cast(rng.choice(values))
        first = dict(inner=rng.choice([0, 0.5, 1]), outer=rng.choice([1.5, 2]),
                     trans=rng.choice([0, 0.3, 1]), inc=rng.choice([0, 30, 90]),
                     tilt=rng.choice([-180, -20, 180]))
        if rng.random() < 0.4:
            f = rng.choice(list(FIELDS))
            first[f] = pick(f)
        ops = [("new", first)]
        for _ in range(rng.randrange(5, 40)):
            f = rng.choice(list(FIELDS))
            ops.append(("set", f, pick(f)))
        yield dict(what="random history", recs=run(ops))
