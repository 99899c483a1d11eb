"""C01, C02: the validators."""
from decimal import Decimal
import enum
from fractions import Fraction
import random

TRACE_MODULE = "T_Validate"
NAN, NINF, NONE, PINF = -1, -2, -3, 1000000000


def models(prop, tier):
    return [dict(module="MC_Validate", name="cases", edges=True, workers=2,
                 cfg="SPECIFICATION Spec\nINVARIANT Inv\n")]


def assumptions(prop):
    return ["numbers are compared exactly by the driver and reach the "
            "specification as ranks",
            "bool and big (> 2^53) integers are not exercised"]


def _flip(field):
    def fn(session):
        for r in session["recs"]:
            if field in r and r.get("res") == "ok":
                r[field] = False
                return session
    return fn


def _accept(op, error):
    def fn(session):
        for r in session["recs"]:
            if r["op"] == op and r["res"] == error:
                r["res"], r["same"] = "ok", True
                return session
    return fn


def _reject(op, error):
    def fn(session):
        for r in session["recs"]:
            if r["op"] == op and r["res"] == "ok":
                r["res"] = error
                return session
    return fn


def corruptors(prop):
    if prop == "C01":
        return [("accepted wrong kind", _accept("number", "TypeError")),
                ("accepted out of bounds", _accept("number", "ValueError")),
                ("rejected admissible", _reject("number", "ValueError")),
                ("class rejected", _reject("class", "TypeError")),
                ("not the same value", _flip("same"))]
    return [("accepted out of bounds", _accept("array", "ValueError")),
            ("accepted wrong type", _accept("array", "TypeError")),
            ("accepted dimensions", _accept("array", "InvalidDimensionsError")),
            ("accepted shapes", _accept("shapes", "InvalidShapeError")),
            ("rejected admissible", _reject("array", "ValueError")),
            ("modified", _flip("unmodified"))]


# ---------------------------------------------------------------------------
def drive(prop, seed, tier, edges):
    import numpy as np
    import validate
    from obs import Ranks, call
    rng = random.Random(seed * 1000 + (1 if prop == "C01" else 2))
    cases = [c for c in edges["cases"]
             if c["fn"] == ("number" if prop == "C01" else "array")]
    rounds = 10 if tier == "quick" else 40

    ints = dict(int=int, int0=np.int0, int8=np.int8, int16=np.int16,
                int32=np.int32, int64=np.int64)
    floats = dict(float=float, float16=np.float16, float32=np.float32,
                  float64=np.float64, float128=np.longdouble)
    class float64(object):      # not the type that its name says
        def __float__(self):
            return 1.0

    class float32(str):
        pass

    class Level(enum.IntEnum):
        DEMO = 20
    others = [np.uint8(1), np.uint16(1), np.uint32(1), np.uint64(1),
              np.bool_(True), np.bool_(False), np.datetime64(1, "s"),
              np.timedelta64(1), Fraction(1), Decimal(1), float64(),
              float32("1"), "12", None, [1], (1,), {}, 1 + 2j, np.complex128(1), b"1",
              np.array([1.0]), np.array(2.0), np.array([1]), object(), int,
              np.str_("2")]

    def scale():
        pick = rng.randrange(11)
        if pick == 0:
            return [0, 1, 2]
        if pick == 1:
            return [-180, 0, 180]
        if pick == 2:
            return [-1, 0, 90]
        if pick == 3:
            return [0.0, 0.5, 1.0]
        if pick == 4:
            x = rng.choice([1.0, 90.0, -180.0, 1e-16, 1e8])
            return [np.nextafter(x, -9e9).item(), x, np.nextafter(x, 9e9).item()]
        if pick == 5:
            return sorted(rng.sample(range(-100, 100), 3))
        if pick == 6:
            a = rng.uniform(-10, 10)
            return [a, a + rng.random() + 1e-9, a + 2]
        if pick == 7:
            return [1e-300, 1e-16, 1e300]
        if pick == 8:       # close neighbours at some relative distance
            x = rng.choice([1.0, 0.5, -1.0, 90.0, -180.0, 3.7, 1e-3, 1e6])
            d = abs(x) * 10.0 ** -rng.randrange(3, 16)
            return [x - d, x, x + d]
        if pick == 9:       # apart by less than a float64 can tell
            x = np.longdouble(rng.choice([0.0, 1.0, -1.0, 90.0, 1e-4, 180.0]))
            d = np.spacing(x) * rng.choice([1, 3, 40])
            return sorted([x - d, x, x + d])
        return [-2.5, -1.5, -0.25]

    def concrete(rank, sc):
        return {NAN: float("nan"), NINF: float("-inf"),
                PINF: float("inf")}.get(rank, sc[rank - 1]
                                        if rank in (1, 2, 3) else None)

    def bound_rank(ranks, b):
        if b is None:
            return NONE
        if b == float("inf"):
            return PINF
        if b == float("-inf"):
            return NINF
        return ranks.of(b)

    def val_rank(ranks, v):
        if v == float("inf"):
            return PINF
        if v == float("-inf"):
            return NINF
        return ranks.of(v)

    bad_bound = ["1", None, [0], 1j]
    bad_flag = [0, 1, "True", None, np.bool_(True)]

    def number_record(kind, value, integer, lo, hi, excl, bad=None):
        kwargs = dict(check_integer=integer, exclusive=excl)
        if lo is not None:
            kwargs["lower_bound"] = lo
        if hi is not None:
            kwargs["upper_bound"] = hi
        if bad == "lo":
            kwargs["lower_bound"] = rng.choice(bad_bound)
        if bad == "hi":
            kwargs["upper_bound"] = rng.choice(bad_bound)
        if bad == "excl":
            kwargs["exclusive"] = rng.choice(bad_flag)
        if bad == "integer":
            kwargs["check_integer"] = rng.choice(bad_flag)
        res, out = call(validate.number, value, "parameter", **kwargs)
        numbers = [x for x in (lo, hi) if x is not None]
        ranks = Ranks()
        is_num = kind in ints or kind in floats
        if is_num:
            numbers.append(value)
        for x in numbers:
            ranks.add(x)
        ranks.freeze()
        return dict(op="number", kind=kind,
                    v=val_rank(ranks, value) if is_num else 0,
                    integer=integer, lo=bound_rank(ranks, lo),
                    hi=bound_rank(ranks, hi), excl=excl, argsok=bad is None,
                    res=res, same=out is value,
                    txt="%r in [%r, %r]" % (value, lo, hi))

    if prop == "C01":
        for _ in range(rounds):
            recs = []
            for c in cases:
                sc = scale()
                lo, hi = concrete(c["lo"], sc), concrete(c["hi"], sc)
                v = concrete(c["v"], sc)
                if c["kind"] == "other":
                    kind, v = "other", rng.choice(others)
                elif c["kind"] == "int":
                    kind = rng.choice(list(ints))
                    whole = [int(round(x)) for x in sc]
                    if max(map(abs, whole)) > 120 or len(set(whole)) < 3:
                        sc = sorted(rng.sample(range(-120, 120), 3))
                        lo, hi = concrete(c["lo"], sc), concrete(c["hi"], sc)
                        if rng.random() < 0.3:
                            lo = None if lo is None else float(lo)
                            hi = None if hi is None else np.float32(hi)
                    v = ints[kind](int(round(concrete(c["v"], sc))))
                else:
                    kind = rng.choice(list(floats))
                    if isinstance(v, np.longdouble):
                        kind = "float128"
                    v = floats[kind](v)
                if c["kind"] == "int" and lo is not None and \
                        rng.random() < 0.05:
                    kind, v = "int", rng.choice([
                        Level.DEMO, 2 ** 40 + 1, -2 ** 50 - 1, 2 ** 31])
                    lo, hi = (v + rng.choice([-1, 0, 1]),
                              hi and v + rng.choice([1, 2]))
                bad = None if c["args"] == "ok" else c["args"]
                if lo is None and hi is None and rng.random() < 0.2:
                    lo, hi = float("-inf"), float("inf")
                recs.append(number_record(kind, v, c["integer"], lo, hi,
                                          c["excl"], bad))
                if len(recs) == 100:
                    yield dict(what="validate.number", recs=recs)
                    recs = []
            # the kind validators
            class A:
                pass
            same = type("A", (), {})        # another class of this name

            class B(A):
                pass
            for x in [True, False, 0, 1, 1.0, "a", "", None, [], b"x",
                      np.bool_(True), np.str_("s"), np.array([True]), A(), B(),
                      A, int, 3 + 1j, same(), same, type("bool", (), {})(),
                      type("str", (bytes,), {})(b"s"), np.float64(2), np.int8(1)]:
                for name, fn, isa in [
                        ("boolean", lambda p: validate.boolean(p, "p"),
                         type(x) is bool),
                        ("string", lambda p: validate.string(p, "p"),
                         isinstance(x, str)),
                        ("class A", lambda p: validate.class_object(
                            p, "p", A, "A"), type(x) in (A, B)),
                        ("class array", lambda p: validate.class_object(
                            p, "p", np.ndarray, "array"),
                         type(x) is np.ndarray)]:
                    res, out = call(fn, x)
                    recs.append(dict(op="class", isa=isa, res=res,
                                     same=out is x,
                                     txt="%s(%r)" % (name, x)))
            yield dict(what="validate.number and class validators", recs=recs)
        return

    # ---- C02
    dtypes = ["float64", "float32", "int64", "int32", "bool", "float16",
              "complex128", "<U3", "object"]

    def array_record(a, lo, hi, excl, wdtype, wndim, bad=None):
        kwargs = dict(exclusive=excl)
        if lo is not None:
            kwargs["lower_bound"] = lo
        if hi is not None:
            kwargs["upper_bound"] = hi
        if wdtype is not None:
            kwargs["dtype"] = wdtype
        if wndim is not None:
            kwargs["num_dimensions"] = wndim
        if bad == "lo":
            kwargs["lower_bound"] = rng.choice(["1", [0], 1j])
        if bad == "hi":
            kwargs["upper_bound"] = rng.choice(["1", [0], 1j])
        if bad == "excl":
            kwargs["exclusive"] = rng.choice(bad_flag)
        isarr = type(a) is np.ndarray
        before = a.tobytes() if isarr else repr(a)
        shape = a.shape if isarr else None
        res, out = call(validate.array, a, "parameter", **kwargs)
        elems = list(a.flatten()) if isarr and a.dtype.kind in "fi" else []
        ranks = Ranks()
        for x in elems + [x for x in (lo, hi) if x is not None]:
            ranks.add(x)
        ranks.freeze()
        seen = []
        for e in elems:
            r = val_rank(ranks, e)
            if r not in seen:
                seen.append(r)
        after = a.tobytes() if isarr else repr(a)
        return dict(op="array", isarr=isarr,
                    dtype=str(a.dtype) if isarr else "",
                    ndim=a.ndim if isarr else 0, elems=seen,
                    lo=bound_rank(ranks, lo), hi=bound_rank(ranks, hi),
                    excl=excl, wdtype=wdtype or "",
                    wndim=-1 if wndim is None else wndim, argsok=bad is None,
                    res=res, same=out is a,
                    unmodified=before == after and
                    (not isarr or a.shape == shape))

    def shaped(values, filler, empty):
        """places the values at random positions of an array of 0-3 dims"""
        if empty:
            return rng.choice([(0,), (0, 3), (2, 0, 1)])
        if rng.random() < 0.15:             # large arrays
            return rng.choice([(100,), (1000,), (7, 30), (5, 40, 9),
                               (2000, 1), (3, 3, 3, 3)])
        ndim = rng.randrange(0 if len(values) == 1 else 1, 4)
        if ndim == 0:
            return ()
        shape = [rng.randrange(1, 4) for _ in range(ndim)]
        while np.prod(shape) < len(values):
            shape[rng.randrange(ndim)] += 1
        return tuple(shape)

    for _ in range(max(1, rounds // 4)):
        recs = []
        for c in cases:
            sc = scale()
            dt = "float64"
            if rng.random() < 0.25 and all(e in (1, 2, 3) for e in c["elems"]):
                sc = sorted(rng.sample(range(-60, 60), 3))
                dt = rng.choice(["int64", "int32", "int8", "float32",
                                 "float16"])
            elif rng.random() < 0.15:
                sc = sorted(x / 4 for x in rng.sample(range(-60, 60), 3))
                dt = rng.choice(["float32", "float16"])
            if isinstance(sc[0], np.longdouble):
                dt = "float128"
            lo, hi = concrete(c["lo"], sc), concrete(c["hi"], sc)
            values = [concrete(e, sc) for e in c["elems"]]
            shape = shaped(values, None, not values)
            size = int(np.prod(shape)) if shape != () else 1
            # fill with copies of an element or with something in bounds
            if lo is not None and hi is not None and lo < hi and \
                    dt == "float64":
                fill = [lo + (hi - lo) * rng.uniform(0.3, 0.7)
                        for _ in range(size)]
            else:
                base = hi if hi is not None and lo is None else (
                    lo if lo is not None else 0)
                off = 0 if lo is None and hi is None else (
                    -1 if lo is None else 1)
                fill = [base + off] * size
                if lo is not None and hi is not None:
                    fill = [values[i % len(values)] for i in range(size)] \
                        if values else fill
            if size:
                pos = rng.sample(range(size), len(values))
                for p, v in zip(pos, values):
                    fill[p] = v
            a = np.array(fill[:size], dtype=dt).reshape(shape)
            view = rng.random()
            if view < 0.08 and a.ndim:      # a strided view
                a = np.repeat(a, 2, axis=0)[::2]
            elif view < 0.16:
                a = np.asfortranarray(a).reshape(shape, order="A")
            if view > 0.9:
                a.setflags(write=False)
            wd = {"": None, "same": str(a.dtype)}.get(
                c["wdtype"], rng.choice([d for d in dtypes + [
                    str(a.dtype)[:-1], str(a.dtype) + "4",
                    str(a.dtype).rstrip("0123456789"), str(a.dtype)[0],
                    str(a.dtype).upper(), a.dtype.str, a.dtype.char]
                                         if d != str(a.dtype)]))
            wn = {"": None, "same": a.ndim}.get(
                c["wndim"], rng.choice([d for d in range(5) if d != a.ndim]))
            bad = None if c["args"] == "ok" else c["args"]
            recs.append(array_record(a, lo, hi, c["excl"], wd, wn, bad))
            if len(recs) == 100:
                yield dict(what="validate.array", recs=recs)
                recs = []
        for _ in range(60):
            for x in [[1.0, 2.0], 1.0, "a", None, (1,), [[1]]]:
                recs.append(array_record(
                    x, rng.choice([None, 0]), rng.choice([None, 5]), False,
                    rng.choice([None, "float64"]), rng.choice([None, 1])))
        for dt in dtypes:
            for ndim in range(4):
                a = np.zeros((2,) * ndim).astype(dt)
                for wd in dtypes:
                    for wn in (None, 0, 1, 2, 3, 4):
                        if rng.random() < 0.35:
                            recs.append(array_record(
                                a, None, None, False,
                                rng.choice([wd, str(a.dtype), None]), wn))
        yield dict(what="validate.array", recs=recs)
        recs = []
        for n in range(0, 6):
            for _ in range(60):
                base = tuple(rng.randrange(0, 4)
                             for _ in range(rng.randrange(0, 4)))
                arrays = [np.zeros(base) for _ in range(n)]
                if n and rng.random() < 0.55:
                    k = rng.randrange(n)
                    other = rng.choice([base + (1,), base[::-1], base[:-1],
                                        tuple(x + 1 for x in base), (2, 2)])
                    arrays[k] = rng.choice([np.ones, np.zeros])(
                        other, dtype=rng.choice(["float64", "bool", "int64"]))
                if n and rng.random() < 0.1:
                    arrays[rng.randrange(n)] = rng.choice(
                        [[1.0], None, 3, "a"])
                names = ["n%d" % i for i in range(
                    n if rng.random() < 0.85 else rng.randrange(0, 6))]
                before = [a.tobytes() if type(a) is np.ndarray else repr(a)
                          for a in arrays]
                res, out = call(validate.same_shape_arrays, arrays, names)
                after = [a.tobytes() if type(a) is np.ndarray else repr(a)
                         for a in arrays]
                recs.append(dict(
                    op="shapes", names=len(names),
                    shapes=[[int(x) for x in a.shape]
                            if type(a) is np.ndarray else [-1]
                            for a in arrays],
                    res=res, unmodified=before == after))
        yield dict(what="validate.same_shape_arrays", recs=recs)
