"""The environment of the simulator properties.

Seams: the clock is the `datetime` given to the simulators, the data comes
from loaders which are passed in, and every random number comes from the
functions of `numpy.random`, replaced here by `Rng`.
"""
import datetime
import hashlib
import os
import random
import shutil

import numpy as np

from . import workspace

DT = datetime.datetime
TD = datetime.timedelta


def shared(root):
    """One full copy of the code and its data, which the workers copy."""
    base = os.path.join(root, "base")
    os.makedirs(base)
    workspace.copy_code(base)
    workspace.copy_parsed(base)


def populate(ws):
    base = os.path.join(os.path.dirname(ws), "base")
    shutil.copytree(os.path.join(base, "demod"), os.path.join(ws, "demod"))


def prepare(root):
    import demod.simulators.base_simulators  # noqa
    import demod.simulators.activity_simulators  # noqa
    import demod.simulators.sparse_simulators  # noqa
    import demod.simulators.weather_simulators  # noqa
    import demod.simulators.lighting_simulators  # noqa
    import demod.simulators.appliance_simulators  # noqa
    import demod.simulators.crest_simulators  # noqa
    import demod.simulators.heating_simulators  # noqa
    import demod.simulators.load_simulators  # noqa
    import demod.simulators.car_simulator  # noqa


# ------------------------------------------------------------------ the clock

ZONES = [None, None, None, None, "UTC", "Europe/Zurich", "America/New_York",
         "Asia/Kolkata", "Australia/Lord_Howe"]

NOTABLE = ["2014-01-01", "2014-01-31", "2014-02-28", "2014-03-30",
           "2014-06-30", "2014-10-25", "2014-10-26", "2014-12-31",
           "2014-03-31", "2014-06-15", "2014-09-30", "2015-01-01"]


# days of other years, with 29th of February
FAR = ["2016-02-28", "2016-02-29", "2016-12-30", "2016-12-31", "2020-02-29",
       "2000-02-28", "1999-12-31", "1996-02-29", "1972-02-28", "2099-12-31",
       "2100-02-28", "2024-02-28"]


def random_start(rng, align_s=60, zone=False, days=NOTABLE, wide=False):
    """A start time, on a grid of `align_s` seconds within its day."""
    if wide and rng.random() < .35:
        day = DT.fromisoformat(rng.choice(FAR))
    else:
        day = DT.fromisoformat(rng.choice(days))
    if rng.random() < .4:
        day += TD(days=rng.randrange(-3, 30))
    n = 86400 // align_s
    r = rng.random()
    if r < .25:
        k = rng.choice([0, 1, n - 1])
    elif r < .55:
        k = (4 * 3600 // align_s + rng.choice([-1, 0, 1, 0])) % n
    else:
        k = rng.randrange(n)
    t = day + TD(seconds=k * align_s)
    out = {"t": t.isoformat(), "z": rng.choice(ZONES) if zone else None}
    return out


def start_of(d):
    t = DT.fromisoformat(d["t"])
    if d.get("z"):
        import zoneinfo
        t = t.replace(tzinfo=zoneinfo.ZoneInfo(d["z"]))
    return t


# ------------------------------------------------------------------- randomness

FUNCTIONS = ["uniform", "randint", "randn", "normal", "poisson", "binomial",
             "rand", "random", "random_sample", "standard_normal", "choice",
             "permutation", "shuffle", "exponential", "ranf", "sample",
             "multinomial", "geometric", "gamma", "beta"]

ONE = float(np.nextafter(1.0, 0.0))


class Rng:
    """The random numbers of a run.

    The numbers come from numpy's legacy generator.  With a `rate`, single
    numbers are replaced by extreme values which the real generator may draw
    as well: the fault kind "extreme draw".  `consumed` counts the numbers.
    """

    def __init__(self, ctx=None, rate=0.0, seed=0):
        self.ctx, self.rate = ctx, rate
        self.py = random.Random(seed)
        self.calls = 0
        self.consumed = 0
        self.off = 0
        self.saved = {}

    def install(self):
        for name in FUNCTIONS:
            real = getattr(np.random, name, None)
            if real is None:
                continue
            self.saved[name] = real
            setattr(np.random, name, self._wrap(name, real))
        return self

    def uninstall(self):
        for name, real in self.saved.items():
            setattr(np.random, name, real)
        self.saved = {}

    def __enter__(self):
        return self.install()

    def __exit__(self, *a):
        self.uninstall()

    def _wrap(self, name, real):
        def draw(*args, **kwargs):
            out = real(*args, **kwargs)
            self.calls += 1
            self.consumed += int(np.size(out)) if out is not None else 1
            if self.rate and not self.off:
                out = self._extreme(name, out, args, kwargs)
            return out
        draw.__name__ = name
        return draw

    def _extreme(self, name, out, args, kwargs):
        arr = np.asarray(out)
        n = arr.size
        if n == 0:
            return out
        picks = [i for i in range(n) if self.py.random() < self.rate] \
            if n < 200 else sorted({self.py.randrange(n) for _ in range(
                int(n * self.rate) + (self.py.random() < n * self.rate % 1))})
        if not picks:
            return out
        vals = self._values(name, arr, args, kwargs)
        if vals is None:
            return out
        arr = np.array(arr)
        flat = arr.reshape(-1)
        for i in picks:
            choices = vals(i)
            if not choices:
                continue
            flat[i] = self.py.choice(choices)
            if self.ctx is not None:
                self.ctx.fault("extreme draw " + name)
        if np.ndim(out) == 0:
            return arr.reshape(-1)[0]
        return arr

    def _values(self, name, arr, args, kwargs):
        def arg(pos, key, default):
            v = args[pos] if len(args) > pos else kwargs.get(key, default)
            return np.broadcast_to(np.asarray(v), arr.shape).reshape(-1)
        if name in ("rand", "random", "random_sample", "ranf", "sample"):
            return lambda i: [0.0, ONE, .5]
        if name == "uniform":
            lo, hi = arg(0, "low", 0.0), arg(1, "high", 1.0)
            return lambda i: [float(lo[i]), float(
                lo[i] + (hi[i] - lo[i]) * ONE)]
        if name == "randint":
            a = args[0] if args else kwargs["low"]
            b = args[1] if len(args) > 1 else kwargs.get("high")
            if b is None:
                a, b = 0, a
            lo = np.broadcast_to(np.asarray(a), arr.shape).reshape(-1)
            hi = np.broadcast_to(np.asarray(b), arr.shape).reshape(-1)
            return lambda i: [int(lo[i]), int(hi[i]) - 1]
        if name in ("randn", "standard_normal"):
            return lambda i: [-5.5, 0.0, 5.5]
        if name == "normal":
            m, s = arg(0, "loc", 0.0), arg(1, "scale", 1.0)
            return lambda i: [float(m[i] - 5.5 * s[i]), float(m[i]),
                              float(m[i] + 5.5 * s[i])]
        if name == "poisson":
            lam = arg(0, "lam", 1.0)
            return lambda i: [0, int(lam[i] + 6 * lam[i] ** .5 + 5)] \
                if lam[i] > 0 else [0]
        if name == "binomial":
            n, p = arg(0, "n", 1), arg(1, "p", .5)
            return lambda i: [int(n[i])] if p[i] >= 1 else (
                [0] if p[i] <= 0 else [0, int(n[i])])
        return None


class Streams:
    """Gives every simulator of a run its own stream of random numbers."""

    def __init__(self, seed):
        self.seed = seed
        self.states = {}

    def state(self, key):
        if key not in self.states:
            h = hashlib.sha256(repr((self.seed, key)).encode()).digest()
            self.states[key] = np.random.RandomState(
                np.frombuffer(h[:16], dtype=np.uint32)).get_state()
        return self.states[key]

    def run(self, key, fn):
        """Runs `fn` with the stream `key` behind numpy's generator."""
        outer = np.random.get_state()
        np.random.set_state(self.state(key))
        try:
            return fn()
        finally:
            self.states[key] = np.random.get_state()
            np.random.set_state(outer)


# ---------------------------------------------------------------- comparing

def snap(v):
    """A copy of an observed value which shares no memory with it."""
    if isinstance(v, np.ndarray):
        return v.copy()
    if isinstance(v, dict):
        return {k: snap(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(snap(x) for x in v)
    return v


def equal(a, b, tol=0.0):
    if isinstance(a, dict) or isinstance(b, dict):
        return (isinstance(a, dict) and isinstance(b, dict)
                and a.keys() == b.keys()
                and all(equal(a[k], b[k], tol) for k in a))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(
            equal(x, y, tol) for x, y in zip(a, b))
    try:
        x, y = np.asarray(a), np.asarray(b)
        if x.shape != y.shape:
            return False
        if x.dtype.kind in "fc" or y.dtype.kind in "fc":
            if tol:
                return bool(np.allclose(x, y, rtol=tol, atol=tol,
                                        equal_nan=True))
            return bool(np.array_equal(x, y, equal_nan=True))
        return bool(np.array_equal(x, y))
    except (TypeError, ValueError):
        return a == b


def show(v, limit=160):
    if isinstance(v, np.ndarray):
        v = v.tolist()
    s = repr(v)
    return s if len(s) <= limit else s[:limit] + "..."


def digest(v):
    """A short stable hash of an observed value."""
    h = hashlib.md5()

    def feed(x):
        if isinstance(x, dict):
            for k in sorted(x, key=str):
                h.update(str(k).encode())
                feed(x[k])
        elif isinstance(x, (list, tuple)):
            for y in x:
                feed(y)
        elif isinstance(x, np.ndarray):
            h.update(str(x.shape).encode())
            if x.dtype.kind in "biuf":
                h.update(np.ascontiguousarray(x).tobytes())
            else:
                h.update(repr(x.tolist()).encode())
        else:
            h.update(repr(x).encode())
    feed(v)
    return h.hexdigest()[:10]


def rs(*key):
    """Numbers for the inputs of a run, apart from the simulated ones."""
    h = hashlib.sha256(repr(key).encode()).digest()
    return np.random.RandomState(np.frombuffer(h[:16], dtype=np.uint32))
