"""P26: electric cars leave, return and charge as their households do."""
import math

import numpy as np

from sim import simenv
from sim.simenv import Rng, rs, show

shared, populate, prepare = simenv.shared, simenv.populate, simenv.prepare
CASES = {"quick": 1200, "thorough": 100000}
QUICK_S, THOROUGH_S = 60, 1500
CPU_LIMIT = 100
RULE = ("A case simulates the cars of seeded households whose residents come "
        "and go, with extreme random draws and callers that reuse their "
        "arrays as faults, and follows every car with a reference model; "
        "non-trivial if the pattern of trips and charges is new.")
STATES = "distinct (strategy, event, cars of the household) tuples"
ASSUMPTIONS = ["the files of cars and stations, which are not public, are "
               "replaced by seeded ones",
               "steps are of ten minutes, from 4 am",
               "frequencies are compared up to 6.5 standard deviations"]
SHRINK = ["k", "rate", "n"]

DAY = 144
LEAVE_OTHER = [0, .62679598, .81792453, .87903226, .93333333, 1.0]
LEAVE_WORK = [0, .52228261, .47798742, .5, .5, .5]
OWNED = [.14292968, .50291952, .29017517, .06397563]


def generate(rng, i, tier):
    stats = rng.random() < .06
    return {"stats": stats, "n": 4000 if stats else rng.choice([1, 3, 8, 25]),
            "strategy": rng.choice([None, "after use", "timers", "timers",
                                    "mixed"]),
            "start": rng.choice([0, 0, 1, 100, 143, 144, 301]),
            "salt": rng.randrange(10 ** 6),
            "block": rng.choice([1, 2, 6, 30]),
            "move": rng.choice([.1, .4, .9]),
            "far": rng.choice([1, 1, 1, 20]),
            "dtype": rng.choice(["int64", "int64", "int32", "uint8"]),
            "reuse": rng.random() < .5,
            "kind": rng.choice(["work", "other"]),
            "leaving": rng.randrange(1, 7),
            "k": 2 if stats else rng.choice([3, 30, 100, 100, 320]),
            "rate": 0 if stats else rng.choice([0, 0, .05, .3])}


def shrinks(case):
    from sim.core import generic_shrinks
    for c in generic_shrinks(case, SHRINK):
        if c["n"] > 0 and c["k"] > 0:
            yield c


def tables(case):
    r = rs(case["salt"], "files")
    m = r.randint(1, 4)

    def share(m):
        p = r.random_sample(m) * (r.random_sample(m) < .8)
        p[r.randint(m)] += .2
        return p / p.sum()
    cars = {"type": np.array(["t%d" % j for j in range(m)]),
            "proportion": share(m),
            "capacity kWh": r.uniform(20, 90, m),
            "consumption kWh/100km": r.uniform(11, 25, m) * case["far"],
            "max charge power kW": r.uniform(3, 12, m)}
    m = r.randint(1, 4)
    stations = {"type": np.array(["s%d" % j for j in range(m)]),
                "proportion": share(m),
                "max charge power kW": r.uniform(2, 12, m)}
    return cars, stations


class Homes:
    """The residents of the households over time."""

    def __init__(self, case):
        self.case = case
        self.r = rs(case["salt"], "homes")
        n = case["n"]
        self.total = self.r.randint(1, 8, n)
        if case["stats"]:
            self.total[:] = 7
        # at home, out for work, out for something else
        self.now = np.array([self.total, 0 * self.total, 0 * self.total])

    def step(self, k):
        c, r = self.case, self.r
        if c["stats"]:
            row = 1 if c["kind"] == "work" else 2
            if k == 0:
                self.now[0] -= c["leaving"]
                self.now[row] += c["leaving"]
            else:
                # one comes back
                self.now[0] += 1
                self.now[row] -= 1
            return
        if k % c["block"]:
            return
        for h in np.where(r.random_sample(len(self.total)) < c["move"])[0]:
            a = r.randint(0, self.total[h] + 1)
            b = r.randint(0, a + 1)
            if r.random_sample() < .3:
                # only one resident moves
                i, j = r.randint(0, 3, 2)
                if self.now[i, h]:
                    self.now[i, h] -= 1
                    self.now[j, h] += 1
            else:
                self.now[:, h] = self.total[h] - a, b, a - b


def near(ctx, got, n, p, sig, what):
    p = min(max(p, 0.0), 1.0)
    tol = 6.5 * math.sqrt(n * p * (1 - p)) + 1e-9 * n + 1e-6
    ctx.check(abs(got - n * p) <= tol, sig, "%s: %d of %d, expected %.1f"
              % (what, got, n, n * p))


def execute(case, ctx):
    from demod.simulators.car_simulator import ElectricCarSimulator
    n = case["n"]
    cars, stations = tables(case)

    class Sim(ElectricCarSimulator):
        def read_cars(self, *a, **k):
            return {x: v.copy() for x, v in cars.items()}

        def read_charging_station(self, *a, **k):
            return {x: v.copy() for x, v in stations.items()}
    ctx.real.add("ElectricCarSimulator")
    ctx.stub.add("files of cars and charging stations")
    homes = Homes(case)
    buffers = [np.zeros(n, dtype=case["dtype"]) for _ in range(3)]

    def given():
        out = buffers if case["reuse"] else [
            np.zeros(n, dtype=case["dtype"]) for _ in range(3)]
        # occupancy, then out for something else, then at work
        for b, row in zip(out, (0, 2, 1)):
            b[...] = homes.now[row]
        return out

    kw = {"charging_attribution_method": case["strategy"]} \
        if case["strategy"] else {}
    np.random.seed(case["seed"] % 2 ** 32)
    with Rng(ctx, case["rate"], case["seed"]):
        args = given()
        sim = Sim(n, *args, {"n_residents": 2},
                  start_time_step=case["start"], **kw)
        if case["reuse"]:
            ctx.fault("caller reuses its arrays")
            for b in buffers:
                b[...] = 3
        follow(case, ctx, sim, homes, given, buffers, cars, stations)
    ctx.sim_seconds += 600 * case["k"]


def follow(case, ctx, sim, homes, given, buffers, cars, stations):
    n = case["n"]
    owned = np.array(sim.n_cars)
    power = np.array(sim.station_power, dtype=float)
    ctx.check(owned.shape == (n,) and bool(
        ((owned >= 0) & (owned <= 3)).all()), "owned",
        "households have %s cars" % show(owned))
    ctx.check(power.shape == (n,) and all(any(
        abs(x - 1000 * y) < 1e-6 and p > 0 for y, p in zip(
            stations["max charge power kW"], stations["proportion"]))
        for x in power[:200]), "station", "stations of %s W" % show(power))
    home = np.repeat(np.arange(n), owned)       # the household of each car
    m = len(home)
    strategy = np.array(sim.charging_strategy)
    want = {None: [0], "after use": [0], "timers": [1], "mixed": [0, 1]}[
        case["strategy"]]
    ctx.check(strategy.shape == (n,) and bool(np.isin(strategy, want).all()),
              "strategy", "%s gives the strategies %s" % (
                  case["strategy"], show(strategy)))
    timer = np.array(sim.car_timer)
    ctx.check(timer.shape == (m,) and bool(
        ((timer >= 108) | (timer < 24)).all()), "timer",
        "timers outside 22:00 to 8:00: %s" % show(timer))
    known = np.ones(n, dtype=bool)
    out = np.zeros(m, dtype=bool)
    trip = np.zeros(m, dtype=int)
    left = np.zeros(m, dtype=int)
    on = np.zeros(m, dtype=bool)
    kinds = np.full(m, np.nan)
    per_step = 230.0    # half of the time at 46 km/h, in Wh per kWh/100 km

    def look(k):
        use = np.asarray(sim.get_car_electric_consumption(), dtype=float)
        ctx.check(use.shape == (m,), "cars", "consumption of %s cars, the "
                  "households have %d" % (use.shape, m))
        new = use > 0
        # a car keeps its type
        first = new & np.isnan(kinds)
        kinds[first] = use[first]
        ctx.check(bool(np.allclose(use[new], kinds[new], rtol=1e-9)),
                  "type", "cars change their consumption")
        ctx.check(all(any(abs(u / per_step - c) < 1e-6 and p > 0 for c, p in
                          zip(cars["consumption kWh/100km"],
                              cars["proportion"]))
                      for u in np.unique(use[new])), "consumption",
                  "cars consume %s W, consumptions are %s kWh/100km" % (
                      show(np.unique(use[new])), show(
                          cars["consumption kWh/100km"])))
        used = np.asarray(sim.get_n_used_cars())
        ctx.check(bool(np.array_equal(used, np.bincount(
            home[new], minlength=n))), "used", "step %d: %s cars used, on the "
            "road are those of %s" % (k, show(used), show(home[new])))
        return new

    def consumption(k):
        got = np.asarray(sim.get_electric_consumption(), dtype=float)
        should = np.bincount(home[on], minlength=n) * power
        bad = np.where(known & ~np.isclose(got, should, rtol=1e-9))[0]
        if len(bad):
            h = bad[0]
            c = np.where(home == h)[0]
            ctx.fail("charging", "step %d (time %d): household %d charges "
                     "with %g W instead of %g; cars %s, on the road %s, steps "
                     "left %s, charging %s, strategy %d, timers %s, station "
                     "%g W" % (k, (case["start"] + k) % DAY, h, got[h],
                               should[h], c, show(out[c]), show(left[c]),
                               show(on[c]), strategy[h], show(timer[c]),
                               power[h]))

    now = look(0)
    ctx.check(not now.any(), "start", "cars are on the road at the start")
    consumption(0)
    tally = {}
    before = homes.now.copy()
    for k in range(case["k"]):
        homes.step(k)
        after = homes.now.copy()
        args = given()
        sim.step(*args)
        if case["reuse"]:
            for b in buffers:
                b[...] = 3
        new = look(k + 1)
        pause = (case["start"] + k) % DAY == 0
        trip[out] += 1
        left[on] -= 1
        on &= left > 0
        cars_out = np.bincount(home[out], minlength=n)
        cars_in = owned - cars_out
        away = after[1] + after[2]
        rose, fell = after[0] > before[0], after[0] < before[0]
        n_leave = np.minimum(before[0].astype(int) - after[0], 5)
        other, work = after[2] > before[2], after[1] > before[1]
        back, gone = out & ~new, ~out & new
        n_back = np.bincount(home[back], minlength=n)
        n_gone = np.bincount(home[gone], minlength=n)
        must = (away < cars_out) & (not pause)
        # the car which returns may leave again at once
        unclear = must & fell
        known &= ~unclear
        may = (must | (rose & (cars_out > 0))) & (not pause)
        p = np.zeros(n)
        p[fell & work] = np.array(LEAVE_WORK)[n_leave[fell & work]]
        p[fell & other] = np.array(LEAVE_OTHER)[n_leave[fell & other]]
        p *= not pause

        def rule(bad, sig, what):
            bad = np.where(bad & ~unclear)[0]
            if len(bad):
                h = bad[0]
                ctx.fail(sig, "step %d (time %d), household %d: %s; at home, "
                         "at work, elsewhere went from %s to %s, %d of %d "
                         "cars were on the road, %d returned, %d left" % (
                             k, (case["start"] + k) % DAY, h, what,
                             before[:, h], after[:, h], cars_out[h], owned[h],
                             n_back[h], n_gone[h]))
        rule((n_back > 1) | (n_gone > 1), "several", "several cars at once")
        rule((n_back > 0) & ~may, "returns", "a car returns without a reason")
        rule(must & (n_back == 0), "stays-away", "more cars than residents "
             "are out, and none returns")
        rule((n_gone > 0) & (p == 0), "leaves", "a car leaves without a "
             "reason")
        rule((p == 1) & (cars_in > 0) & (n_gone == 0), "stays-home",
             "no car leaves, though one surely does")
        if case["rate"] == 0:
            a = may & ~must
            tally.setdefault("back", []).append((
                n_back[a].sum(), a.sum(), .9 * a.sum(), .09 * a.sum()))
            a = (p > 0) & (cars_in > 0) & ~unclear
            tally.setdefault("gone", []).append((
                n_gone[a].sum(), a.sum(), p[a].sum(), (p * (1 - p))[a].sum()))
        # what the trip took is charged
        for c in np.where(back)[0]:
            steps = trip[c] * kinds[c] / power[home[c]]
            left[c] += int(steps)
            trip[c] = 0
            on[c] = strategy[home[c]] == 0 and left[c] > 0
            ctx.cover(case["strategy"], "back", int(owned[home[c]]),
                      min(int(left[c]), 150) // 10)
        t = (case["start"] + k + 1) % DAY
        wait = np.where(timer > t, timer - t, timer + DAY - t)
        idle = ~(out & ~back)
        on |= idle & ~gone & (strategy[home] == 1) & (left == wait)
        on |= idle & (left > DAY)
        for c in np.where(gone)[0]:
            ctx.cover(case["strategy"], "gone", int(owned[home[c]]),
                      bool(on[c]), int(left[c]) > 0)
        on &= ~gone
        out = new
        consumption(k + 1)
        ctx.ev(k, int(out.sum()), int(on.sum()), int(left.sum()))
        before = after
    for what, rows in sorted(tally.items()):
        got, count, mean, var = (float(sum(x[i] for x in rows))
                                 for i in range(4))
        ctx.check(abs(got - mean) <= 6.5 * math.sqrt(var) + 1e-6,
                  "often:" + what, "%d of %d cars went %s, expected %.1f" % (
                      got, count, what, mean))
    if case["stats"]:
        for j, q in enumerate(OWNED):
            near(ctx, int((owned == j).sum()), n, q, "owned-often",
                 "households with %d cars" % j)
        for y in np.unique(stations["max charge power kW"]):
            near(ctx, int(np.isclose(power, 1000 * y).sum()), n,
                 float(stations["proportion"][np.isclose(
                     stations["max charge power kW"], y)].sum()),
                 "station-often", "stations of %g kW" % y)
        seen = kinds[~np.isnan(kinds)] / per_step
        for c, q in zip(cars["consumption kWh/100km"], cars["proportion"]):
            near(ctx, int(np.isclose(seen, c).sum()), len(seen), float(q),
                 "type-often", "cars of %g kWh/100km" % c)
        near(ctx, int((timer >= 108).sum()), m, 36 / 60, "timer-often",
             "timers before 4:00")
        if case["strategy"] == "mixed":
            near(ctx, int(strategy.sum()), n, .5, "mixed",
                 "households with timers")
