"""P06: the callbacks of the simulated calendar."""
import datetime

from sim import simenv
from sim.simenv import TD, random_start, start_of

shared, populate, prepare = simenv.shared, simenv.populate, simenv.prepare
CASES = {"quick": 3000, "thorough": 150000}
QUICK_S, THOROUGH_S = 60, 1200
CPU_LIMIT = 60
RULE = ("A case decorates a user-defined simulator with a seeded sequence of "
        "callbacks and steps it over seeded dates with a seeded step size; "
        "non-trivial if its trace of callbacks is new.")
STATES = "distinct (callback, step size, kind of boundary) tuples"
ASSUMPTIONS = ["daylight saving changes: wall-clock arithmetic of datetime"]
NEW = ["before_refresh_time", "after_refresh_time", "before_next_day",
       "after_next_day", "before_next_day_4am", "after_next_day_4am"]
OLD = {"before_next_day": "before_next_day_callback",
       "after_next_day": "after_next_day_callback",
       "before_next_day_4am": "before_next_day_callback_4am",
       "after_next_day_4am": "after_next_day_callback_4am"}
STEPS = [60, 60, 60, 600, 600, 900, 1800, 3600, 5400, 7200, 17 * 60, 86400,
         100000, 43200, 200000, 30, 420, 13 * 3600,
         28 * 86400, 30 * 86400, 31 * 86400, 365 * 86400, 366 * 86400]


def generate(rng, i, tier):
    st = rng.choice(STEPS)
    c = {"step": st,
         "refresh": rng.choice([0, 4 * 3600, 4 * 3600, 12 * 3600, 86340,
                                60 * rng.randrange(1440)]),
         "start": random_start(rng, rng.choice([60, 60, 600, 3600, 1]), True,
                                   wide=True),
         "decorators": [[d, d in OLD and rng.random() < .3] for d in
                        rng.sample(NEW, rng.randrange(1, 7))],
         "warm": rng.choice([None, None, 0, 4 * 3600,
                             60 * rng.randrange(1440)]),
         "k": rng.randrange(1, 120)}
    if st < 600:
        # move near a boundary, as the steps are short
        t = start_of(c["start"])
        b = rng.choice([0, 4 * 3600, c["refresh"]])
        t = t.replace(hour=0, minute=0, second=0) + TD(seconds=b) \
            - TD(seconds=60 * rng.randrange(0, 20) + rng.choice([0, 0, 13]))
        c["start"]["t"] = t.replace(tzinfo=None).isoformat()
        if st < 60:
            c["warm"] = None
    c["jumps"] = sorted(
        [rng.randrange(0, 60), rng.choice([-3600, 60, 86400, 3600, -86400,
                                           40000, 86400 * 30])]
        for _ in range(rng.choice([0, 0, 0, 1, 2])))
    return c


SHRINK = ["k", "decorators", "jumps"]


def boundary(kind, a, b, refresh):
    """Is there a start of a day in (a, b]?"""
    shift = {"day": 0, "4am": 4 * 3600, "refresh": refresh}[kind]
    a, b = (x.replace(tzinfo=None) - TD(seconds=shift) for x in (a, b))
    return (b - datetime.datetime(2000, 1, 1)) // TD(days=1) > \
        (a - datetime.datetime(2000, 1, 1)) // TD(days=1)


def execute(case, ctx):
    from demod.simulators import base_simulators as bs
    log = []
    refresh = (datetime.datetime(2000, 1, 1)
               + TD(seconds=case["refresh"])).time()

    class Data:
        refresh_time = refresh

    def step(self, value, extra=None):
        log.append(("step", self.current_time, value, extra))
        bs.TimeAwareSimulator.step(self)
        return ("out", value)

    for name, old in case["decorators"]:
        if old:
            step = getattr(bs, OLD[name])(step)
        else:
            step = getattr(bs.Callbacks, name)(step)

    def on(name):
        def callback(self):
            log.append((name, self.current_time, self.current_time_step))
        return callback

    body = {"on_" + n: on(n) for n in NEW
            if n in [d for d, _ in case["decorators"]]}
    body["step"] = step
    body["data"] = Data()
    Mine = type("Mine", (bs.TimeAwareSimulator,), body)
    ctx.real.update(["Callbacks", "TimeAwareSimulator"])
    start = start_of(case["start"])
    size = TD(seconds=case["step"])
    sim = Mine(2, start_datetime=start, step_size=size)
    names = [d for d, _ in reversed(case["decorators"])]  # outermost first

    def expected(t, n, value, extra):
        def due(name):
            if name.endswith("refresh_time"):
                return boundary("refresh", t - size, t, case["refresh"])
            kind = "4am" if name.endswith("4am") else "day"
            return boundary(kind, t, t + size, 0)
        out = [(x, t, n) for x in names if x.startswith("before") and due(x)]
        out.append(("step", t, value, extra))
        out += [(x, t + size, n + 1) for x in reversed(names)
                if x.startswith("after") and due(x)]
        return out

    want = []
    n = 0
    kw = {}
    if case["warm"] is not None:
        kw["initialization_time"] = (
            datetime.datetime(2000, 1, 1) + TD(seconds=case["warm"])).time()
        init = start.replace(hour=0, minute=0, second=0, microsecond=0) \
            + TD(seconds=case["warm"])
        if init > start:
            init -= TD(days=1)
        n = (start - init) // size
        for j in range(n):
            want += expected(start - (n - j) * size, j, "warm", "e")
        kw["value"] = "warm"
        kw["extra"] = "e"
    sim.initialize_starting_state(**kw)
    compare(ctx, log, want, "during the warm-up", case, start)
    jumps = {}
    for at, by in case["jumps"]:
        jumps.setdefault(at, []).append(by)
    t = start
    for k in range(case["k"]):
        for by in jumps.get(k, ()):
            ctx.fault("clock jump")
            sim.current_time += TD(seconds=by)
            t += TD(seconds=by)
        del log[:]
        want = expected(t, n + k, k, -k)
        out = sim.step(k, extra=-k)
        ctx.sim_seconds += case["step"]
        compare(ctx, log, want, "in the step of %s from %s" % (size, t),
                case, start)
        ctx.check(out == ("out", k), "result", "the decorated step returns %r"
                  % (out,))
        for e in want:
            if e[0] != "step":
                ctx.cover(e[0], case["step"], t.day == 1, t.month == 1)
                ctx.probe(e[0])
                ctx.ev(e[0], e[1])
        t += size


def compare(ctx, log, want, when, case, start):
    if log == want:
        return
    got = [(x[0], str(x[1])) for x in log if x not in want]
    miss = [(x[0], str(x[1])) for x in want if x not in log]
    kind = (miss or got or [("order",)])[0][0]
    ctx.fail("callback-" + kind, "%s (refresh time %s s): not called: %s; "
             "called unexpectedly: %s%s" % (
                 when, case["refresh"], miss[:4], got[:4],
                 "" if miss or got else "; order %s instead of %s" % (
                     [x[0] for x in log], [x[0] for x in want])))
