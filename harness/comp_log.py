"""C27: what ring systems and grids write to their logs."""
import random
import re

TRACE_MODULE = "T_Log"


def models(prop, tier):
    n = 4 if tier == "quick" else 5
    return [dict(module="MC_Log", name="log", edges=True, workers=1,
                 cfg="SPECIFICATION Spec\nCONSTANTS MaxLen = %d\nVIEW View\n"
                     "INVARIANT Inv\nPROPERTY Frame\n"
                     "ACTION_CONSTRAINT Emit\n" % n),
            dict(module="MC_LogGrid", name="grid", edges=True, workers=1,
                 cfg="SPECIFICATION Spec\nCONSTANTS MaxLen = %d\nVIEW View\n"
                     "INVARIANT Inv\nPROPERTY Told\n"
                     "ACTION_CONSTRAINT Emit\n" % (n + 1))]


def assumptions(prop):
    return ["radii below 2000", "what an object writes is what arrives at "
            "the standard error of the process during the calls of it",
            "messages are recognised by their wording; others are only "
            "checked for their level"]


def corruptors(prop):
    def first(s, cond):
        return next((r for r in s["recs"] if cond(r)), None)

    def twice(s):
        r = first(s, lambda r: r["t"] == "rings" and
                  any(m["k"] in ("added", "removed") for m in r["got"]))
        if r:
            r["got"] += r["got"]
            return s

    def index(s):
        r = first(s, lambda r: any(m["k"] == "added" for m in r["got"]))
        if r:
            for m in r["got"]:
                if m["k"] == "added":
                    m["n"][0] += 1
            return s

    def table(s):
        r = first(s, lambda r: r["tables"] and r["tables"][0]["before"] !=
                  r["tables"][0]["after"])
        if r:
            r["tables"][0]["before"] = r["tables"][0]["after"]
            return s

    def missing_row(s):
        r = first(s, lambda r: any(m["k"] == "row" for m in r["got"]))
        if r:
            r["got"].remove(next(m for m in r["got"] if m["k"] == "row"))
            return s

    def level(s):
        r = first(s, lambda r: r["level"] > 20)
        if r:
            r["got"].append(dict(lv=20, k="other", n=[]))
            return s

    def number(s):
        r = first(s, lambda r: r["near"])
        if r:
            r["near"][0]["got"] += 11000
            return s
    return [("twice", twice), ("index", index), ("table", table),
            ("missing row", missing_row), ("level", level),
            ("number", number)]


HEAD = re.compile(r"\d{4}-\d\d-\d\d \d\d:\d\d:\d\d,\d{3} - "
                  r"(DEBUG|INFO|WARNING|ERROR|CRITICAL)\s* - \S+: ")
LEVEL = dict(DEBUG=10, INFO=20, WARNING=30, ERROR=40, CRITICAL=50)
NUM = r"(-?[0-9.]+(?:e[-+]?[0-9]+)?)"
KINDS = [(k, re.compile(p)) for k, p in [
    ("added", r"^added ring at index (\S+)"),
    ("removed", r"^removed ring at index (\S+)"),
    ("replaced", r"^replaced ring at index (\S+)"),
    ("split", r"^split rings from (\S+) to (\S+)"),
    ("merged", r"^merged rings from (\S+) to (\S+)"),
    ("inclination", r"^ring inclination overridden from (\S+) to (\S+)"),
    ("tilt", r"^ring tilt overridden from (\S+) to (\S+)"),
    ("row", r"^building y = (\S+)/(\S+)"),
    ("cleared", r"^gradient fit has been cleared"),
    ("missing", r"^eclipse parameters missing"),
    ("adding", r"^adding (\S+) gradients"),
    ("none", r"^no gradients found"),
    ("dropped", r"^gradients set to None"),
    ("unchanged", r"^no changes passed"),
    ("nothing", r"^no gradients present"),
    ("fitting", r"^determining (\S+) gradient rms"),
    ("nofit", r"^no gradient fit found"),
    ("extracting", r"^extracting (\S+) out of (\S+) possible"),
    ("deviation", r"^maximum deviation is (\S+)"),
    ("near0", r"^disk_radius: (\S+) --> (\S+)"),
    ("near1", r"^inclination: (\S+) --> (\S+)"),
    ("near2", r"^tilt: (\S+) --> (\S+)"),
    ("near3", r"^impact_parameter: (\S+) --> (\S+)"),
    ("near4", r"^'fit': (\S+)")]]
REAL = ("inclination", "tilt", "deviation", "near0", "near1", "near2",
        "near3", "near4")
ROW = re.compile(r"^\s*(\d+)\s+%s\s+%s\s+%s\s*$" % (NUM, NUM, NUM), re.M)


def micro(text, scale=10 ** 6):
    from fractions import Fraction
    try:
        n = round(Fraction(text) * scale)
    except (ValueError, ZeroDivisionError):
        return -2000000000
    return max(-2000000000, min(2000000000, n))


def rows(text):
    return [[int(m.group(1))] + [micro(m.group(k)) for k in (2, 3, 4)]
            for m in ROW.finditer(text)]


def parse(text):
    """(messages, tables) of what was written"""
    got, tables = [], []
    heads = list(HEAD.finditer(text))
    for h, nxt in zip(heads, heads[1:] + [None]):
        body = text[h.end():nxt.start() if nxt else len(text)]
        lv = LEVEL[h.group(1)]
        if "Before:" in body and "After:" in body:
            before, _, after = body.partition("After:")
            tables.append(dict(lv=lv, before=rows(before), after=rows(after)))
            got.append(dict(lv=lv, k="table", n=[]))
            continue
        for k, pattern in KINDS:
            m = pattern.match(body)
            if m:
                got.append(dict(lv=lv, k=k, n=[
                    micro(v, 10 ** 6 if k in REAL else 1)
                    for v in m.groups()]))
                break
        else:
            got.append(dict(lv=lv, k="other", n=[]))
    return got, tables


def drive(prop, seed, tier, edges):
    import io
    import os
    import shutil
    import sys
    import tempfile
    import numpy as np
    from GridParameters import GridParameters
    from Ring import Ring
    from RingSystem import RingSystem
    from Shallot import ShallotGrid
    from obs import call
    rng = random.Random(seed * 1000 + 27)
    quick = tier == "quick"
    NONE = dict(n=0)

    class Log:
        """the calls of one session"""

        def __init__(self, what):
            self.what, self.recs = what, []

        def capture(self, fn, *args, **kw):
            """(outcome, value, messages, tables, random state kept)"""
            before = np.random.get_state()
            keep, buf = sys.stderr, io.StringIO()
            self.buf.seek(0)
            self.buf.truncate()
            sys.stderr = self.buf
            try:
                res, value = call(fn, *args, **kw)
            finally:
                sys.stderr = keep
            after = np.random.get_state()
            kept = before[0] == after[0] and before[2:] == after[2:] and \
                np.array_equal(before[1], after[1])
            return (res, value) + parse(self.buf.getvalue()) + (bool(kept),)

        buf = None

        def done(self):
            return dict(what=self.what, recs=self.recs)

    def fresh(what):
        log = Log(what)
        log.buf = io.StringIO()
        return log

    # ---------------------------------------------------------------- rings
    def table(system):
        if system is None:
            return []
        return [[micro(repr(float(v))) for v in row]
                for row in zip(*system.get_rings_data())]

    class Rings:
        def __init__(self, log, level, same):
            self.log = log
            self.geo = (rng.choice([0, 45.5, 90, 12.345]),
                        rng.choice([0, -30.25, 180, 77.777]))
            n = rng.randrange(2, 4)
            r = [rng.choice([0.5, 1.25, 3])]
            for _ in range(2 * n - 1):
                r.append(r[-1] + rng.choice([0.25, 1, 1.37, 12]))
            if rng.random() < 0.3:      # touching rings
                r[2] = r[1]
            if same:
                np.random.seed(3)
            res, self.s, got, tables, kept = log.capture(
                RingSystem, rng.choice([0.5, 1.0]), np.array(r[0::2]),
                np.array(r[1::2]),
                np.array([rng.choice([0.0, 0.5, 0.5, 1.0])
                          for _ in range(n)]), *self.geo,
                logging_level=level)
            self.level = level
            self.record("new", res, got, tables, kept, [], {})

        def record(self, op, res, got, tables, kept, before, a):
            self.log.recs.append(dict(
                t="rings", op=op, res=res, level=self.level, a=a, got=got,
                tables=tables, near=[], random=kept, before=before,
                after=table(self.s),
                sys=dict(inc=micro(repr(float(self.geo[0]))),
                         tilt=micro(repr(float(self.geo[1]))))))

        def edit(self, op, ok):
            s, a = self.s, {}
            inner, outer, trans = [list(map(float, x))
                                   for x in s.get_rings_data()]
            n = len(inner)
            if n == 0 and op in ("remove", "replace", "merge"):
                if ok or op == "merge":
                    return
            args = None
            if op in ("add", "replace"):
                gaps = []
                for k in range(n + 1):
                    lo = outer[k - 1] if k else 0.125
                    hi = inner[k] if k < n else lo + 7
                    if hi - lo > 0.02:
                        gaps.append((k, lo, hi))
                if op == "replace":
                    gaps = [(k, outer[k - 1] if k else 0.01,
                             inner[k + 1] if k + 1 < n else outer[k] + 5)
                            for k in range(n)]
                gap = rng.choice(gaps) if gaps else (0, 1, 2)
                k, lo, hi = gap
                where = rng.choice([(0, 1), (0.25, 0.75), (0.1, 0.2)])
                inc, tilt = self.geo
                if rng.random() < 0.5:
                    inc = rng.choice([0, 10.5, 89.994, inc + 1e-5
                                      if inc < 90 else inc])
                if rng.random() < 0.5:
                    tilt = rng.choice([0, -90.5, 179.996])
                lo, hi = lo + (hi - lo) * where[0], lo + (hi - lo) * where[1]
                if not ok:
                    how = rng.randrange(3)
                    if how == 0 and n:
                        j = rng.randrange(n)
                        lo, hi, k = inner[j], outer[j] + 1e4, 0
                        k = rng.choice([0, n - 1]) if op == "replace" else \
                            rng.randrange(n + 1)
                        if op == "replace" and (n == 1 or j == k):
                            k = n + 2
                        elif op == "replace" and k == n - 1:
                            lo = inner[0] / 2
                        elif op == "add" and k > j:
                            lo = inner[0] / 2
                    elif how == 1:
                        k = rng.choice([-1, n + 2, n + 1])
                    else:
                        k = rng.choice([0.5, "0", None])
                ring = Ring(lo, hi, rng.choice([0, 0.5, 0.123]), inc, tilt)
                args = (k, ring)
                a = dict(index=k if isinstance(k, int) else 0,
                         inc=micro(repr(float(inc))),
                         tilt=micro(repr(float(tilt))))
                if not ok and rng.random() < 0.2:
                    args = (0, "ring")
            elif op == "remove":
                k = rng.randrange(n) if ok else rng.choice([-1, n, 0.0, "x"])
                args = (k,)
                a = dict(index=k if isinstance(k, int) else 0)
            elif op == "split":
                many = rng.randrange(2, 4) if n < 40 else 2
                if n > 200:
                    return
                args = (many,) if rng.random() < 0.5 else (np.array(
                    [rng.randrange(1, 4) for _ in range(n)], dtype="int64"),)
                if not ok:
                    args = (rng.choice([1, 0, -2, 2.0, "x",
                                        np.ones(n + 1, dtype="int64")]),)
            elif op == "merge":
                args = () if rng.random() < 0.5 else (
                    rng.choice([1e-3, 0.3, 5.0]),)
                if not ok:
                    args = ("wide",)
            before = table(s)
            res, _, got, tables, kept = self.log.capture(
                getattr(s, dict(add="add_ring", remove="remove_ring",
                                replace="replace_ring", split="split_rings",
                                merge="merge_rings")[op]), *args)
            self.record(op, res, got, tables, kept, before, a)

        def look(self):
            s = self.s
            before = table(s)
            res, _, got, tables, kept = self.log.capture(rng.choice([
                lambda: str(s), s.get_rings_data, s.get_num_rings]))
            self.record("look", res, got, tables, kept, before, {})

    def history(what, events):
        log = fresh(what)
        objs = {}
        for e in events:
            if e["op"] == "new":
                objs[e["o"]] = Rings(log, e["level"], e["same"])
                if objs[e["o"]].s is None:
                    return log.done()
            elif e["op"] == "look":
                objs[e["o"]].look()
            else:
                objs[e["o"]].edit(e["op"], e["ok"])
        return log.done()

    items = edges["log"]
    items = [h for h in items if len(h) > 1]
    for h in rng.sample(items, min(len(items), 900 if quick else 6000)):
        yield history("model history", h)
    for _ in range(60 if quick else 600):
        events = [dict(op="new", o=o, level=rng.choice(
            [10, 11, 15, 20, 20, 21, 30, 50]), same=rng.random() < 0.6)
            for o in (1, 2, 3)]
        for _ in range(rng.randrange(4, 14)):
            events.append(dict(op=rng.choice(["add", "add", "remove",
                                              "replace", "split", "merge",
                                              "look"]),
                               o=rng.randrange(1, 4), ok=rng.random() < 0.7))
        yield history("random history", events)

    # ---------------------------------------------------------------- grids
    class Grid:
        def __init__(self, log, level, small=False):
            self.log, self.level = log, level
            self.g = None
            ny, nx, nr = rng.randrange(2, 5), rng.randrange(2, 4), \
                rng.randrange(2, 4)
            if rng.random() < 0.25:
                ny, nx = rng.choice([(2, 11), (11, 2), (3, 10), (13, 1)])
            if small:
                ny, nx, nr = 2, 2, 2
            lo = rng.choice([0, 0, 0.2, -1.0])
            p = GridParameters(rng.choice([0, lo]), 1.5, nx, lo, 1.25, ny,
                               rng.choice([1.5, 3.0]), nr)
            if rng.random() < 0.5:
                np.random.seed(3)
            before = self.state()
            before["random"] = True
            res, self.g, got, tables, kept = log.capture(
                ShallotGrid, p, 20 if small else 40, logging_level=level,
                keep_diagnostics=rng.random() < 0.3)
            near = []
            if res == "ok":
                near = self.deviation(got)
            self.record("build", res, got, kept, before,
                        dict(first=0, rows=ny), near)

        def deviation(self, got):
            if self.level > 20:
                return []
            want = float(np.nanmax(np.abs(self.quiet(
                self.g.get_diagnostic_map, False, False))))
            said = [m["n"][0] for m in got if m["k"] == "deviation"]
            return [dict(got=said[0] if len(said) == 1 else -10 ** 9,
                         want=micro(repr(want)), tol=52)]

        def quiet(self, fn, *args):
            """an observation, the messages of which are not recorded"""
            _, value, _, _, _ = self.log.capture(fn, *args)
            return value

        def state(self):
            g = self.g
            if g is None:
                return dict(ecl=False, grads=0, fit=False)
            return dict(ecl=self.known, grads=len(g.gradients or []),
                        fit=g.gradient_fit is not None)

        known = False

        def record(self, op, res, got, kept, before, a, near=()):
            self.log.recs.append(dict(
                t="grid", op=op, res=res, level=self.level, a=a, got=got,
                tables=[], near=list(near), random=kept, before=before,
                after=self.state(), sys={}))

        def do(self, op, fn, *args, a=None, near=None):
            before = self.state()
            res, value, got, _, kept = self.log.capture(fn, *args)
            if op == "eclipse" and res == "ok":
                self.known = True
            self.record(op, res, got, kept, before, a or {},
                        near(value, got) if near and res == "ok" else [])
            return value

        def model(self, e):
            """one step of a history of the model"""
            g, op, kind = self.g, e["op"], e["kind"]
            n = len(g.gradients or [])
            bad = kind == "bad"
            if op == "eclipse":
                self.do(op, g.set_eclipse_parameters, 1.0, 4.0,
                        1.5 if bad else 0.6)
            elif op == "add":
                k = e["count"]
                m = np.full(max(k, int(bad)), 90.0 if bad else 0.4)
                self.do(op, g.add_gradients, np.linspace(-0.4, 0.5, len(m)),
                        m, a=dict(count=k))
            elif op == "remove":
                picked = [n] if bad else rng.sample(range(n), min(
                    e["count"], n))
                self.do(op, g.remove_gradients, np.array(picked,
                                                         dtype="int64"))
            elif op == "fit":
                self.do(op, g.determine_gradient_fit,
                        *([] if kind == "weighted" else [False]))
            elif op == "read":
                self.do(op, g.get_gradient_fit, rng.random() < 0.5)
            elif op == "hill":
                self.do(op, g.generate_hill_radius_mask,
                        rng.choice([0.1, 1.7, 50.0]))
            elif op == "rescale":
                args = dict(
                    none=(), velocity=(5.0,), darkening=(None, 0.4),
                    transmissions=(None, None, np.ones(n)),
                    bad=(1e-9,) if n else (-1.0,))[kind]
                self.do(op, g.update_gradient_scaling, *args,
                        a=dict(any=bool(args)))
            elif op == "extract" and g.gradient_fit is not None:
                most = int(np.sum(~self.quiet(g.get_combined_mask)))
                k = dict(all=None, some=most // 2, none=0, bad=most + 1)[kind]
                self.do(op, g.extract_solutions, k, a=dict(
                    count=most if k is None else k, most=most))

        def step(self):
            g = self.g
            n = len(g.gradients or [])
            op = rng.choice(["eclipse", "add", "add", "remove", "fit", "fit",
                             "read", "extract", "rescale", "closest", "hill",
                             "worst", "str"])
            bad = rng.random() < 0.25
            if op == "eclipse":
                self.do(op, g.set_eclipse_parameters, 1.0,
                        -1.0 if bad else 4.0, 0.6)
            elif op == "add":
                k = rng.choice([0, 1, 2, 3, 3, 12])
                m = np.full(k, 90.0 if bad and k else 0.4)
                times = np.linspace(-0.4, 0.5, k)
                if rng.random() < 0.3:      # several at the same time
                    times = np.round(times)
                self.do(op, g.add_gradients, times, m, a=dict(count=k))
            elif op == "remove":
                self.do(op, g.remove_gradients, np.array(
                    [n + 1 if bad else k for k in range(n)
                     if rng.random() < 0.6], dtype="int64"))
            elif op == "fit":
                self.do(op, g.determine_gradient_fit)
            elif op == "read":
                self.do(op, g.get_gradient_fit)
            elif op == "extract" and g.gradient_fit is not None:
                most = int(np.sum(~self.quiet(g.get_combined_mask)))
                k = rng.choice([None, 0, 1, most, most // 2, most + 1])
                if k is not None and k > most + bad:
                    return
                self.do(op, g.extract_solutions, k, a=dict(
                    count=most if k is None else k, most=most))
            elif op == "rescale" and n:
                args = rng.choice([(), (5.0,), (None, 0.4), (-1.0,),
                                   (None, None, np.ones(n)),
                                   (None, None, np.ones(n + 1))])
                self.do(op, g.update_gradient_scaling, *args,
                        a=dict(any=bool(args)))
            elif op == "hill":
                self.do(op, g.generate_hill_radius_mask,
                        rng.choice([1.0, 1.7, 50.0]))
            elif op == "str":
                self.do(op, str, g)
            elif op == "worst":
                self.do(op, g.diagnose_fxfy_resolution,
                        near=lambda v, got: self.deviation(got))
            elif op == "closest":
                query = (rng.uniform(0.5, 3), rng.uniform(0, 90),
                         rng.uniform(-180, 180), rng.choice([0.1, 0.7]))

                def near(value, got):
                    if self.level > 20:
                        return []
                    _, index, distance = value
                    maps = [self.quiet(f, False, False) for f in (
                        g.get_disk_radius, g.get_inclination, g.get_tilt)]
                    want = [float(m[index]) for m in maps] + \
                        [float(g.parameters.dy.flatten()[index[0]])]
                    out = []
                    for k in range(5):
                        m = [x["n"] for x in got if x["k"] == "near%d" % k]
                        m = m[0] if len(m) == 1 else [-10 ** 9] * 2
                        if k == 4:
                            out.append(dict(got=m[0], tol=2,
                                            want=micro(repr(float(distance)))))
                            continue
                        out.append(dict(got=m[0], want=micro(repr(query[k])),
                                        tol=5002))
                        out.append(dict(got=m[1], want=micro(repr(want[k])),
                                        tol=5002))
                    return out
                self.do(op, g.determine_closest_grid_point, *query, False,
                        near=near)

    for _ in range(20 if quick else 250):
        log = fresh("grids")
        grids = [Grid(log, rng.choice([10, 15, 20, 20, 20, 21, 30, 50]))
                 for _ in range(rng.randrange(1, 3))]
        if any(x.g is None for x in grids):
            yield log.done()
            continue
        for _ in range(rng.randrange(8, 25)):
            rng.choice(grids).step()
        yield log.done()
    steps = [h for h in edges["grid"] if len(h) > 2]
    for h in rng.sample(steps, min(len(steps), 250 if quick else 2500)):
        log = fresh("model history of a grid")
        x = Grid(log, rng.choice([10, 20, 20, 20, 25]), small=True)
        if x.g is not None:
            for e in h:
                x.model(e)
        yield log.done()
    # a build that is resumed goes on behind its checkpoint
    for _ in range(16 if quick else 100):
        log = fresh("resumed build")
        x = Grid(log, rng.choice([20, 50]))
        if x.g is not None:
            home = tempfile.mkdtemp()
            keep = os.getcwd()
            os.chdir(home)
            ny = len(x.g.parameters.dy)
            first = rng.randrange(ny)
            call(x.g.save, "part", first)
            y = Grid.__new__(Grid)
            y.log, y.level, y.g = log, rng.choice([10, 20, 20, 25]), None
            before = y.state()
            res, y.g, got, _, kept = log.capture(
                lambda: ShallotGrid.load("part", logging_level=y.level))
            os.chdir(keep)
            whole = x.g.parameters.grid_shape == y.g.parameters.grid_shape \
                if res == "ok" else True
            if res == "ok" and whole:
                y.record("build", res, got, kept, before,
                         dict(first=first, rows=ny), y.deviation(got))
            shutil.rmtree(home, ignore_errors=True)
        yield log.done()
    # grids that are loaded have a log of their own
    for _ in range(3 if quick else 20):
        log = fresh("loaded grid")
        x = Grid(log, rng.choice([20, 50]))
        if x.g is not None:
            home = tempfile.mkdtemp()
            folder = os.path.join(home, "grid")
            call(x.g.save, folder)
            y = Grid.__new__(Grid)
            y.log, y.level, y.g = log, rng.choice([10, 20, 50]), None
            np.random.seed(3)
            before = y.state()
            res, y.g, got, _, kept = log.capture(
                lambda: ShallotGrid.load(folder, logging_level=y.level))
            y.record("load", res, got, kept, before, {})
            shutil.rmtree(home, ignore_errors=True)
            for _ in range(10):
                (y if y.g is not None and rng.random() < 0.7 else x).step()
        yield log.done()
