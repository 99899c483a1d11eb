"""Observation helpers used by the drivers (run under /opt/venv)."""
import math
import signal


class OpTimeout(BaseException):
    pass


class Hangs(BaseException):
    """Calls that do not return, again and again."""


TIMEOUTS = [0]


def _alarm(signum, frame):
    raise OpTimeout()


def call(fn, *args, **kwargs):
    """(outcome, value): outcome is 'ok' or the name of the exception."""
    limit = kwargs.pop("_limit", 30)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return "ok", fn(*args, **kwargs)
    except OpTimeout:
        TIMEOUTS[0] += 1
        if TIMEOUTS[0] >= 3:
            raise Hangs("%r %r %r" % (fn, args, kwargs)) from None
        return "Timeout", None
    except Exception as error:
        return type(error).__name__, None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Ranks:
    """Order-preserving integers for exactly comparable numbers.

    Numbers are collected first and ranked afterwards; NaN has the rank 'nan'
    (encoded as -1), so a trace carries comparisons but no rounding."""

    def __init__(self):
        self.values = []

    def add(self, x):
        self.values.append(x)
        return x

    def freeze(self):
        exact = sorted({_exact(v) for v in self.values if not _isnan(v)})
        self.rank = {v: i for i, v in enumerate(exact)}

    def of(self, x):
        return -1 if _isnan(x) else self.rank[_exact(x)]


def _isnan(x):
    try:
        return bool(x != x)
    except Exception:
        return False


def _exact(x):
    from fractions import Fraction
    if isinstance(x, (bool, int)):
        return Fraction(int(x))
    f = x
    try:
        if math.isinf(x):
            return math.inf if x > 0 else -math.inf
    except OverflowError:
        pass
    import numpy as np
    if isinstance(f, np.longdouble):
        n, d = f.as_integer_ratio()
        return Fraction(int(n), int(d))
    if isinstance(f, np.integer):
        return Fraction(int(f))
    return Fraction(float(f))


def big(x, places=12):
    """Limbs in base 10^4 (least significant first) of x in 10^-12; NaN is []."""
    from fractions import Fraction
    if not isinstance(x, Fraction):
        if _isnan(x) or math.isinf(x):
            return []
        x = Fraction(float(x))
    n = round(x * 10 ** places)
    sign, n = (-1, -n) if n < 0 else (1, n)
    out = []
    while n:
        out.append(sign * (n % 10000))
        n //= 10000
    return out or [0]


def fixed(x, scale, nan=-2000000000, limit=1900000000):
    """x as an integer of 1/scale, NaN and too large numbers marked."""
    x = float(x)
    if x != x:
        return nan
    n = x * scale
    if abs(n) > limit:
        return limit if n > 0 else -limit
    return round(n)
