"""C04, C05: ring systems under edit histories."""
import random

TRACE_MODULE = "T_RingSystem"
UNIT = 2.0 ** -20


def models(prop, tier):
    cfg = ("SPECIFICATION Spec\nCONSTANTS MaxR = %d\nTs = {1, 2}\nUnit = 6\n"
           "CONSTRAINT Small\nINVARIANT TypeOK SplitThm MergeThm\n")
    return [dict(module="MC_RingSystem", name="edits", edges=True, workers=4,
                 cfg=cfg % (5 if tier == "quick" else 6))]


def assumptions(prop):
    return ["radii of recorded histories are whole multiples of 2^-20 (exact "
            "in binary), or compared to one such unit for arbitrary reals",
            "transmissions reach the specification as exact ranks"]


def relevant(prop, sessions):
    if prop == "C04":
        return sum(len(s["recs"]) for s in sessions)
    return sum(r["op"] in ("split", "merge") for s in sessions
               for r in s["recs"])


def corruptors(prop):
    def pick(s, cond):
        for i, r in enumerate(s["recs"]):
            if i and cond(r, s["recs"][i - 1]):
                return i, r, s["recs"][i - 1]
        return None, None, None

    def accept_invalid(s):
        i, r, p = pick(s, lambda r, p: r["res"] not in ("ok",) and
                       r["op"] in ("add", "replace", "remove"))
        if r:
            r["res"] = "ok"
            return s

    def lost_ring(s):
        i, r, p = pick(s, lambda r, p: r["res"] == "ok" and
                       r["op"] == "add")
        if r:
            r["posts"] = p["posts"]
            return s

    def leaked(s):
        i, r, p = pick(s, lambda r, p: r["sys"] == 1 and r["posts"][1])
        if r:
            r["posts"][1][0]["t"] += 1
            return s

    def wrong_split(s):
        i, r, p = pick(s, lambda r, p: r["op"] == "split" and
                       r["res"] == "ok" and r["posts"][r["sys"] - 1] and
                       r["posts"][r["sys"] - 1] != p["posts"][r["sys"] - 1])
        if r:
            r["posts"][r["sys"] - 1][-1]["o"] += 2
            return s

    def no_merge(s):
        i, r, p = pick(s, lambda r, p: r["op"] == "merge" and
                       r["res"] == "ok" and
                       r["posts"][r["sys"] - 1] != p["posts"][r["sys"] - 1])
        if r:
            r["posts"] = p["posts"]
            return s

    def geometry(s):
        i, r, p = pick(s, lambda r, p: r["res"] == "ok")
        if r:
            r["geom"] = False
            return s

    def shared(s):
        i, r, p = pick(s, lambda r, p: r["op"] == "add" and r["res"] == "ok")
        if r:
            r["shared"] = True
            return s
    if prop == "C04":
        return [("accepted invalid", accept_invalid), ("lost ring", lost_ring),
                ("other system changed", leaked), ("geometry", geometry),
                ("shared ring", shared)]
    return [("wrong split", wrong_split), ("no merge", no_merge)]


def drive(prop, seed, tier, edges):
    import logging
    import numpy as np
    from Ring import Ring
    from RingSystem import RingSystem
    from obs import Ranks, big, call
    rng = random.Random(seed * 1000 + 4)
    levels = [logging.CRITICAL] * 6 + [logging.ERROR]

    class World:
        """two systems and the recorded history"""

        def __init__(self, what, tol=0):
            self.what, self.tol = what, tol
            self.sys = [None, None]
            self.geo = [None, None]
            self.raw = []
            self.passed = []

        def observe(self):
            posts, nums, geom = [], [], True
            for k in (0, 1):
                if self.sys[k] is None:
                    posts.append([])
                    nums.append(0)
                    continue
                out, data = call(self.sys[k].get_rings_data)
                rings = []
                if out == "ok":
                    rings = [tuple(float(v) for v in x) for x in zip(*data)]
                posts.append(rings)
                out, n = call(self.sys[k].get_num_rings)
                nums.append(int(n) if out == "ok" else -1)
                for r in self.sys[k].rings:
                    geom = geom and getattr(r, "inclination", None) == \
                        self.geo[k][0] and getattr(r, "tilt", None) == \
                        self.geo[k][1]
                geom = geom and self.sys[k].inclination == self.geo[k][0] \
                    and self.sys[k].tilt == self.geo[k][1]
            return posts, nums, bool(geom)

        def new(self, k, rings, geo):
            self.geo[k] = geo
            cols = [np.array([r[j] for r in rings], dtype="float64")
                    for j in range(3)]
            res, self.sys[k] = call(RingSystem, rng.choice([0, 0.5, 1.25]),
                                    *cols, geo[0], geo[1],
                                    logging_level=rng.choice(levels))
            if self.sys[k] is None:
                return False
            self.log(k, "new", res, rings=rings)
            return True

        def log(self, k, op, res, ring=None, d=(), tol2=0, index=0,
                well=True, rings=(), before=None, loose=False):
            posts, nums, geom = self.observe()
            same, shared = True, False
            if isinstance(ring, Ring):
                same = before == (ring.inner_radius, ring.outer_radius,
                                  ring.transmission, ring.inclination,
                                  ring.tilt)
                shared = any(r is ring for s in self.sys if s is not None
                             for r in s.rings)
            self.raw.append(dict(
                op=op, sys=k + 1, res=res, k=index, wellformed=well,
                ring=(before[:3] if before else None), d=list(d), tol2=tol2,
                rings=list(rings), posts=posts, num=nums[k], geom=geom,
                argsame=same, shared=shared, loose=loose))

        def ring(self, i, o, t):
            """a ring of the caller, with a geometry of its own"""
            inc, tilt = rng.choice([(0, 0), (12.5, -7), (90, 180),
                                    self.geo[0]])
            return Ring(i, o, t, inc, tilt)

        def add(self, k, index, ring, well=True, op="add"):
            before = (ring.inner_radius, ring.outer_radius, ring.transmission,
                      ring.inclination, ring.tilt) \
                if isinstance(ring, Ring) else None
            fn = self.sys[k].add_ring if op == "add" else \
                self.sys[k].replace_ring
            loose = False
            if rng.random() < 0.3 and type(index) is int:
                arg = np.int64(index)
            elif rng.random() < 0.3 and index in (0, 1) and \
                    type(index) is int:
                arg, loose = bool(index), True
            else:
                arg = index
            res, _ = call(fn, arg, ring)
            self.log(k, op, res, ring=ring, before=before, loose=loose,
                     index=index if type(index) is int else 0, well=well)
            if isinstance(ring, Ring):
                self.passed.append(ring)

        def remove(self, k, index, well=True):
            loose = index in (0, 1) and type(index) is int and \
                rng.random() < 0.2
            res, _ = call(self.sys[k].remove_ring,
                          bool(index) if loose else index)
            self.log(k, "remove", res, well=well, loose=loose,
                     index=index if type(index) is int else 0)

        def split(self, k, arg, d, well=True):
            arg0 = np.copy(arg) if isinstance(arg, np.ndarray) else arg
            res, _ = call(self.sys[k].split_rings, arg)
            same = not isinstance(arg, np.ndarray) or np.array_equal(arg, arg0)
            self.log(k, "split", res, d=d, well=well)
            self.raw[-1]["argsame"] = bool(same)

        def merge(self, k, tol2=None):
            """tol2: twice the tolerance in units; None: the default"""
            if tol2 is None:
                res, _ = call(self.sys[k].merge_rings)
                tol2 = 3          # 1e-6 is 1.0486 units
            else:
                res, _ = call(self.sys[k].merge_rings, tol2 * UNIT / 2)
            self.log(k, "merge", res, tol2=tol2)

        def touch(self):
            """the caller changes a ring that it passed before"""
            if not self.passed:
                return
            ring = rng.choice(self.passed)
            kind = rng.randrange(3)
            if kind == 0:
                ring.transmission = rng.choice([0, 0.125, 1])
            elif kind == 1:
                ring.outer_radius = ring.outer_radius + 1
            else:
                ring.inclination, ring.tilt = 33, -33
            self.log(rng.randrange(2) if self.sys[1] else 0, "touch", "ok")

        def session(self):
            ranks = Ranks()
            for r in self.raw:
                for ring in list(r["rings"]) + sum(r["posts"], []) + \
                        ([r["ring"]] if r["ring"] else []):
                    ranks.add(ring[2])
            ranks.freeze()

            def units(x):
                if not abs(x) < 1000:
                    return (1 << 30), True
                u = x / UNIT
                return round(u), abs(u - round(u)) > 1e-3

            exact = True
            recs = []
            for r in self.raw:
                frac = False

                def conv(ring):
                    nonlocal frac
                    i, f1 = units(ring[0])
                    o, f2 = units(ring[1])
                    frac = frac or f1 or f2
                    return dict(i=i, o=o, t=ranks.of(ring[2]),
                                b=[big(ring[0]), big(ring[1])]
                                if self.tol else [])
                r = dict(r)
                r["rings"] = [conv(x) for x in r["rings"]]
                r["ring"] = conv(r["ring"]) if r["ring"] else \
                    dict(i=0, o=0, t=0, b=[[0], [0]])
                # the gap to the next ring: -1, 0 or 1, compared exactly
                r["gaps"] = [[(b[0] > a[1]) - (b[0] < a[1])
                              for a, b in zip(p, p[1:])] for p in r["posts"]]
                r["posts"] = [[conv(x) for x in p] for p in r["posts"]]
                r["exact"] = bool(self.tol or not frac)
                r["tol"] = self.tol
                recs.append(r)
            return dict(what=self.what, recs=recs)

    # ---- every edit of the model (sampled in the quick tier)
    model = edges["edits"]
    groups = {}
    for e in model:
        groups.setdefault((e["op"], e["ok"], len(e["pre"])), []).append(e)
    quota = 4000 if tier == "quick" else 60000
    chosen = []
    for g in sorted(groups):
        items = groups[g]
        n = max(40, quota * len(items) // len(model))
        chosen += items if len(items) <= n else rng.sample(items, n)
    tvals = {1: 0.25, 2: 0.75}
    for e in chosen:
        if prop == "C05" and e["op"] not in ("split", "merge"):
            continue
        if e["op"] in ("split", "merge") and prop == "C04" and \
                rng.random() < 0.5:
            continue
        # one model unit is m binary units
        m = rng.choice([1, 1, 2, 8, 1024, 3])
        f = m * UNIT
        a, b = rng.choice([(0.25, 0.75), (0.0, 1.0), (0.5, 0.5 + 2 ** -52),
                           (1.0, 0.1)])
        tvals = {0: 0.5, 1: a, 2: b}
        w = World("model transition %s" % e["op"])
        geo = (rng.choice([0, 30.0, 90]), rng.choice([-180, 0.0, 77]))
        w.new(0, [(r["i"] * f, r["o"] * f, tvals[r["t"]]) for r in e["pre"]],
              geo)
        if w.sys[0] is None:
            continue
        if e["op"] in ("add", "replace"):
            r = e["r"]
            w.add(0, e["k"], w.ring(r["i"] * f, r["o"] * f, tvals[r["t"]]),
                  op=e["op"])
        elif e["op"] == "remove":
            w.remove(0, e["k"])
        elif e["op"] == "split":
            d = e["d"]
            if d and len(set(d)) == 1 and d[0] >= 2 and rng.random() < 0.5:
                w.split(0, d[0], d)
            else:
                w.split(0, np.array(d, dtype="int64"), d)
        else:
            w.merge(0, e["tol2"] * m)
            if rng.random() < 0.5:
                w.merge(0, e["tol2"] * m)
        yield w.session()

    # ---- random histories of two systems
    BASE = 2520
    trans = [0.0, 0.25, 0.5, 0.5 + 2 ** -30, 0.75, 1.0]
    for n_hist in range(120 if tier == "quick" else 1500):
        generic = n_hist % 5 == 4
        w = World("random history" + (" (arbitrary reals)" if generic else ""),
                  tol=2 if generic else 0)
        t_few = rng.sample(trans, rng.choice([1, 2, 3]))

        def radius():
            if generic:
                return rng.uniform(0.01, 6)
            return rng.randrange(1, 60) * BASE * UNIT * 64

        def rings(n):
            edges_ = sorted({radius() for _ in range(2 * n)})
            out = []
            x = 0
            for j in range(0, len(edges_) - 1, 2):
                i, o = edges_[j], edges_[j + 1]
                if x and rng.random() < 0.5:     # a gap of 0, 1 or 2 units
                    i = x + rng.choice([0, 0, 900, 5000, 9000] if generic
                                       else [0, 0, 1, 2, 3]) * UNIT
                    if not i + (900 * UNIT if generic else 0) < o:
                        continue
                    if not generic:
                        o = i + BASE * UNIT * rng.randrange(1, 6)
                        if j + 2 < len(edges_) and o > edges_[j + 2]:
                            continue
                if generic and not o - i > 900 * UNIT:
                    continue
                out.append((i, o, rng.choice(t_few)))
                x = o
            return out
        geo = [(rng.choice([0, 10.5, 90.0, 45]), rng.choice([-180, 0, 22.5]))
               for _ in range(2)]
        many = n_hist % 6 == 2          # a system of more than ten rings
        wide = n_hist % 10 == 6         # some splits into a hundred and more
        ok = all(w.new(k, rings(rng.randrange(14, 30) if many and k == 0 else
                                rng.randrange(1, 3) if wide else
                                rng.randrange(0, 5)), geo[k])
                 for k in (0, 1))
        if not ok:
            continue
        for _ in range(rng.randrange(8, 30)):
            k = 0 if rng.random() < 0.75 else 1
            s = w.sys[k]
            posts = w.raw[-1]["posts"][k]
            n = len(posts)
            op = rng.choice(["add", "add", "add", "replace", "replace",
                             "remove", "split", "split", "merge", "merge",
                             "touch", "readd", "bad"])
            if n > (270 if wide else 60):
                op = rng.choice(["merge", "remove"])
            if op == "add" or op == "replace":
                index = rng.randrange(-1, n + 2) if rng.random() < 0.15 \
                    else rng.randrange(0, n + 1)
                # mostly aim at the gap, sometimes overlap a neighbour
                j = max(0, min(index, n))
                lo = posts[j - 1][1] if j else UNIT * BASE
                nxt = j + (op == "replace")
                hi = posts[nxt][0] if nxt < n else lo + BASE * UNIT * 40
                if rng.random() < 0.25:
                    lo -= UNIT
                if rng.random() < 0.25:
                    hi += UNIT
                if rng.random() < 0.5:
                    i, o = lo, hi
                elif generic:
                    i = rng.uniform(lo, hi) if hi > lo else lo
                    o = rng.uniform(i, hi) if hi > i else i
                else:
                    i = lo + rng.choice([0, 1, 2, BASE]) * UNIT
                    o = hi - rng.choice([0, 1, 2, BASE]) * UNIT
                if not 0 < i < o or (generic and o - i < 900 * UNIT):
                    continue
                w.add(k, index, w.ring(i, o, rng.choice(t_few)), op=op)
            elif op == "readd" and w.passed:
                ring = rng.choice(w.passed)
                w.add(k, rng.randrange(0, n + 1), ring)
            elif op == "remove":
                w.remove(k, rng.randrange(-1, n + 1))
            elif op == "split":
                div = []
                for i, o, t in posts:
                    width = round((o - i) / UNIT)
                    div.append([d for d in ((1, 2, 3, 4, 5, 7) if not wide else
                                            (1, 64, 70, 72, 84, 90, 96, 105,
                                             112, 126, 128, 140, 180))
                                if d == 1 or
                                (width // d > 64 if generic else
                                 width % d == 0)])
                if rng.random() < 0.5:
                    common = [d for d in sorted(set(sum(div, []))) if
                              d > 1 and all(d in x for x in div)]
                    if not common:
                        continue
                    d = rng.choice(common)
                    if d * n > (300 if wide else 150):
                        continue
                    arg = rng.choice([int, np.int64, np.int32])(d)
                    w.split(k, arg, [d] * n)
                else:
                    d = [rng.choice(x) for x in div]
                    if sum(d) > (300 if wide else 150):
                        continue
                    w.split(k, np.array(d, dtype="int64"), d)
            elif op == "merge":
                w.merge(k, rng.choice(
                    [None, None, 1 << 24] if generic else
                    [None, None, None, 1, 2, 4, 5, 7, 2 * BASE + 1,
                     1 << 24]))
            elif op == "touch":
                w.touch()
            elif op == "bad":
                kind = rng.randrange(6)
                good = w.ring(900.0, 901.0, 0.5)
                if kind == 0:
                    w.add(k, rng.choice([0.5, "0", None, [0]]), good,
                          well=False, op=rng.choice(["add", "replace"]))
                elif kind == 1:
                    w.add(k, rng.choice([0, n]), rng.choice(
                        [None, (1, 2, 0.5), "ring", s]), well=False,
                        op=rng.choice(["add", "replace"]))
                elif kind == 2:
                    w.remove(k, rng.choice([0.0, "0", None]), well=False)
                elif kind == 3:
                    w.split(k, rng.choice([1, 0, -2, 2.0, "2", None]), [1] * n,
                            well=False)
                elif kind == 4 and n:
                    d = [1] * n
                    bad = rng.choice([
                        np.array(d + [2]), np.array(d[1:], dtype="int64"),
                        np.array(d, dtype="float64"),
                        np.array([d]), np.array([0] + d[1:]),
                        np.array(d[1:] + [-1])])
                    w.split(k, bad, d, well=False)
                else:
                    w.add(k, n + 1, good)
        yield w.session()
