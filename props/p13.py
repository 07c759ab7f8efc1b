"""P13: room thermostats follow the behaviour of their kind of household."""
import datetime

import numpy as np

from props.p12 import near
from sim import simenv
from sim.simenv import TD, Rng, equal, rs, show

shared, populate, prepare = simenv.shared, simenv.populate, simenv.prepare
CASES = {"quick": 800, "thorough": 100000}
QUICK_S, THOROUGH_S = 100, 1500
CPU_LIMIT = 120
RULE = ("A case simulates the thermostats of seeded households whose "
        "residents come, go, sleep and wake up at seeded times, with stuck "
        "or flickering presence and extreme draws as faults; non-trivial if "
        "the sequence of temperatures is new.")
STATES = "distinct (kind of household, event, new temperature) tuples"
ASSUMPTIONS = ["the random numbers come from numpy.random",
               "frequencies are compared up to 6.5 standard deviations",
               "the simulation starts at a multiple of ten minutes"]
SHRINK = ["k", "rate", "n", "stuck", "flicker"]
LOW = 16.0
# name: (usual temperature, greatest deviation, probability of a change,
#        share of the households, kind of behaviour)
KINDS = {
    "Cool Conservers": (17., 1.5, .1, .06, "react"),
    "Steady and Savvy": (18.5, 1., 0, .24, "fixed"),
    "Hot and Cold Fluctuators": (20., 2., .1, .17, "react"),
    "On-Demand Sizzlers": (23., 2., .1, .12, "react"),
    "On-off Switchers": (20., .5, 0, .28, "onoff"),
    "Toasty Cruisers": (21., 1., 0, .13, "fixed"),
}
NAMES = list(KINDS)


def generate(rng, i, tier):
    stats = rng.random() < .06
    day = datetime.datetime(2015, 1, 1) + TD(days=rng.randrange(700))
    at = day + TD(minutes=10 * rng.randrange(144))
    if stats or rng.random() < .4:
        at = day + TD(hours=4)
    return {"salt": rng.randrange(10 ** 6), "stats": stats,
            "n": 4000 if stats else rng.choice([1, 2, 7, 20]),
            "k": rng.choice([1, 290]) if stats else rng.choice(
                [0, 1, 5, 40, 150, 300, 450, 700]),
            "start": at.isoformat(),
            "method": rng.choice(["default", "living lab", "random"])
            if rng.random() < (.9 if stats else .4) else rng.choice(NAMES),
            "pace": rng.choice([2, 6, 30]),
            "stuck": rng.choice([0, 0, .3]),
            "flicker": rng.choice([0, 0, .1, 1]),
            "buffers": rng.random() < .3,
            "observe": 1 if stats else rng.choice([.2, 1, 1]),
            "rate": 0 if stats else rng.choice([0, 0, .1])}


def shrinks(case):
    from sim.core import generic_shrinks
    for c in generic_shrinks(case, SHRINK):
        if c["n"] > 0:
            yield c


def execute(case, ctx):
    with Rng(ctx, case["rate"], case["seed"]):
        np.random.seed(case["seed"] % 2 ** 32)
        run(case, ctx)


class Presence:
    """Residents that come, go, sleep and wake up."""

    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.r = rs(case["salt"], "presence")
        n = case["n"]
        self.occ = self.r.randint(0, 4, size=n)
        self.act = np.minimum(self.occ, self.r.randint(0, 4, size=n))

    def step(self):
        n, r = self.case["n"], self.r
        if r.random_sample() < self.case["stuck"]:
            self.ctx.fault("stuck presence")
            return
        p = 1. / self.case["pace"]
        flick = r.random_sample(n) < self.case["flicker"]
        if flick.any() and self.case["flicker"]:
            self.ctx.fault("flickering presence", int(flick.sum()))
        new = np.where(self.occ > 0, 0, r.randint(1, 4, size=n))
        # some leave or come while others are at home
        new = np.where((self.occ > 0) & (r.random_sample(n) < .4),
                       r.randint(0, 4, size=n), new)
        move = (r.random_sample(n) < p) | flick
        self.occ = np.where(move, new, self.occ)
        again = (r.random_sample(n) < p) | move
        awake = r.randint(0, 4, size=n)
        self.act = np.minimum(self.occ, np.where(again, awake, self.act))

    def now(self):
        return np.array(self.occ), np.array(self.act)


def build(case, occ, act):
    from demod.simulators.heating_simulators import (
        VariableThermostatTemperatureSimulator)
    kw = {} if case["method"] == "default" else {
        "pattern_attribution_method": case["method"]}
    return VariableThermostatTemperatureSimulator(
        case["n"], occ, act,
        datetime.datetime.fromisoformat(case["start"]), **kw)


def run(case, ctx):
    ctx.real.add("VariableThermostatTemperatureSimulator")
    n, who = case["n"], Presence(case, ctx)
    occ, act = who.now()
    given = np.array(occ), np.array(act)
    sim = build(case, *given)
    now = datetime.datetime.fromisoformat(case["start"])
    first = np.array(sim.get_thermostat_temperatures(), dtype=float)
    ctx.check(first.shape == (n,), "form", "%s thermostats of %d households"
              % (first.shape, n))
    names = NAMES if case["method"] in ("default", "living lab", "random") \
        else [case["method"]]
    # the kinds that every household may be of
    may = {a: first == KINDS[a][0] for a in names}
    ctx.check(bool(np.any(list(may.values()), axis=0).all()), "start",
              "households start at %s" % show(first))
    look = rs(case["salt"], "look")
    if case["buffers"]:
        ctx.fault("inputs in the same arrays")
    old = first
    times, temps, counts = [now], [first], {}
    for k in range(case["k"]):
        who.step()
        o, a = who.now()
        now += TD(minutes=10)
        was, asleep = occ, act
        if case["buffers"]:
            # the user fills the same arrays in every step
            given[0][:], given[1][:] = o, a
        else:
            given = np.array(o), np.array(a)
        sim.step(*given)
        ctx.check(equal(given[0], o) and equal(given[1], a), "inputs",
                  "the occupancy given to the step was modified")
        occ, act = o, a
        new = np.array(sim.get_thermostat_temperatures(), dtype=float)
        for name in list(may):
            kind = KINDS[name]
            if kind[4] == "fixed":
                ok = np.isin(new, [kind[0], kind[0] - kind[1],
                                   kind[0] + kind[1]])
            elif kind[4] == "onoff":
                ok = new == np.where(o > 0, kind[0], LOW)
            else:
                ok = react(kind, old, new, was, o, asleep, a)
            may[name] = may[name] & ok
        alive = np.any(list(may.values()), axis=0)
        if not alive.all():
            h = int(np.where(~alive)[0][0])
            ctx.fail("behaviour", "a household that started at %s goes from "
                     "%s to %s with occupancy %d to %d, %d to %d active" % (
                         first[h], old[h], new[h], was[h], o[h], asleep[h],
                         a[h]))
        for h in range(min(n, 3)):
            ctx.cover(float(first[h]), event(was[h], o[h], asleep[h], a[h]),
                      float(new[h]))
        if case["stats"] and case["rate"] == 0:
            comfort(counts, may, old, new, was, o, asleep, a)
        if look.random_sample() < case["observe"]:
            ctx.ev(k, simenv.digest(new))
        old = new
        times.append(now)
        temps.append(new)
    daily(case, ctx, may, times, np.array(temps))
    choices(ctx, counts)
    if case["stats"]:
        shares(case, ctx, may, names)
    if case["seed"] % 7 == 0:
        unknown(case, ctx, occ, act)
    ctx.sim_seconds += 600 * case["k"]


def event(was, o, asleep, a):
    return ("leave" if was > 0 and o == 0 else
            "arrive" if was == 0 and o > 0 else
            "sleep" if asleep > 0 and a == 0 else
            "wake" if asleep == 0 and a > 0 else
            "active" if a > 0 else "none")


def base(kind, old, was, o, asleep, a):
    """The temperature before a change for comfort."""
    out = np.array(old)
    leave, arrive = (was > 0) & (o == 0), (was == 0) & (o > 0)
    out[(asleep > 0) & (a == 0) & ~leave & ~arrive] = kind[0]
    out[(asleep == 0) & (a > 0) & ~leave & ~arrive] = kind[0] + kind[1]
    out[leave] = LOW
    out[arrive] = kind[0] + kind[1]
    return out


def react(kind, old, new, was, o, asleep, a):
    levels = kind[0] + np.arange(0, 2 * kind[1] + 1) / 2.
    return (new == base(kind, old, was, o, asleep, a)) | (
        (a > 0) & np.isin(new, levels))


def comfort(counts, may, old, new, was, o, asleep, a):
    """Counts how often active residents change the temperature."""
    sole = np.sum(list(may.values()), axis=0) == 1
    leave, arrive = (was > 0) & (o == 0), (was == 0) & (o > 0)
    wake = (asleep == 0) & (a > 0) & ~arrive & ~leave
    for name, mine in may.items():
        mean, dev, _, _, kind = KINDS[name]
        if kind != "react":
            continue
        b = base(KINDS[name], old, was, o, asleep, a)
        levels = mean + np.arange(0, 2 * dev + 1) / 2.
        mask = mine & (a > 0) & np.isin(b, levels)
        if name == "Hot and Cold Fluctuators":
            # not those which could be told apart only by this change
            mask &= sole & (old > mean)
        for ev, of in (("arriving", arrive), ("waking", wake),
                       ("active", ~arrive & ~wake)):
            for number in (1, 2):
                sub = mask & of & ((a > 1) == (number > 1))
                for x in levels:
                    c = counts.setdefault((name, ev, number, x), [0, 0])
                    c[0] += int((new == x)[sub & (b != x)].sum())
                    c[1] += int((sub & (b != x)).sum())


def choices(ctx, counts):
    """How often active residents change the temperature, and to what."""
    for (name, ev, number, x), (c, m) in counts.items():
        mean, dev, p, _, _ = KINDS[name]
        ctx.probe("comfort tested")
        ctx.check(near(c, m, p / (2 * dev + 1)), "comfort", "%d of %d %s %s "
                  "choose %s degrees" % (c, m, ev, name, x))


def minute(t):
    return t.hour * 60 + t.minute


def daily(case, ctx, may, times, temps):
    """The programmed thermostats change at the same times every day."""
    fixed = [x for x in may if KINDS[x][4] == "fixed"]
    if not fixed or len(times) < 2:
        return
    mine = np.any([may[x] for x in fixed], axis=0)
    if len(times) > 289:
        same = (temps[144:-144] == temps[288:]).all(axis=0)
        ctx.check(bool(same[mine].all()), "daily", "programmed thermostats "
                  "change at other times than the day before")
    stats = {"low": 0, "all": 0, "wake": [], "leave": [], "back": [],
             "bed": []}
    for name in fixed:
        mean, dev = KINDS[name][:2]
        for h in np.where(may[name])[0]:
            program(ctx, name, mean, dev, times, temps[:, h], stats)
    if case["stats"] and len(times) > 289 and case["rate"] == 0:
        program_shares(ctx, stats)


def program(ctx, name, mean, dev, times, ts, stats):
    last_low = last_wake = None
    low_seen = False
    moves = np.where(ts[1:] != ts[:-1])[0]
    for i in moves:
        old, new, at = ts[i], ts[i + 1], times[i + 1]
        m = minute(at)
        what = "%s go from %s to %s at %s" % (name, old, new, at.time())
        if old == mean - dev:
            ctx.check((at - last_low).total_seconds() <= 430 * 60, "program",
                      what + ", left at %s" % last_low.time())
        if new == mean:
            ctx.check(m >= 1200 or m <= 50, "program", what)
            if times[0].hour == 4 and i > 144:
                stats["bed"].append(m)
        elif new == mean - dev:
            low_seen = True
            ctx.check(390 <= m <= 810, "program", what)
            ctx.check(old == mean + dev or (
                at - times[0]).total_seconds() < 10 * 3600, "program", what)
            if last_wake is not None and last_wake.date() == at.date():
                gap = (at - last_wake).total_seconds() / 60
                ctx.check(30 <= gap <= 220, "program",
                          what + ", woken up at %s" % last_wake.time())
                stats["leave"].append(gap)
            last_low = at
        else:
            back = old == mean - dev or m > 590
            if not back:
                ctx.check(360 <= m <= 590, "program", what)
                last_wake = at
                if i > 144:
                    stats["wake"].append(m)
            else:
                ctx.check(630 <= m <= 1240, "program", what)
                if old == mean - dev:
                    gap = (at - last_low).total_seconds() / 60
                    ctx.check(240 <= gap <= 430, "program",
                              what + ", left at %s" % last_low.time())
                    stats["back"].append(gap)
    if ts[-1] == mean - dev:
        ctx.check((times[-1] - last_low).total_seconds() < 430 * 60,
                  "program", "%s that left at %s have not come back at %s" % (
                      name, last_low.time(), times[-1].time()))
    stats["all"] += 1
    stats["low"] += low_seen
    if len(times) > 289:
        day = ts[144:289]
        into = (day[1:] == mean) & (day[:-1] != mean)
        ctx.check(int(into.sum()) == 1, "program", "%s go to bed %d times in "
                  "a day" % (name, int(into.sum())))
        ctx.check(bool((day == mean + dev).any()), "program", "%s never heat "
                  "more in a day" % name)


def program_shares(ctx, stats):
    ctx.probe("programs tested")

    def test(what, values, want):
        for v, q in want.items():
            c = sum(1 for x in values if x == v)
            ctx.check(near(c, len(values), q), "program shares",
                      "%d of %d %s are %s" % (c, len(values), what, v))
    ctx.check(near(stats["low"], stats["all"], .5), "program shares",
              "%d of %d leave" % (stats["low"], stats["all"]))
    test("wake-up hours", [m // 60 for m in stats["wake"]],
         dict.fromkeys(range(6, 10), .25))
    test("wake-up minutes", [m % 60 for m in stats["wake"]],
         {0: .5, 10: .1, 20: .1, 30: .1, 40: .1, 50: .1})
    test("bed hours", [m // 60 for m in stats["bed"]],
         dict.fromkeys([20, 21, 22, 23, 0], .2))
    test("bed minutes", [m % 60 for m in stats["bed"]],
         {0: .5, 10: .1, 20: .1, 30: .1, 40: .1, 50: .1})
    test("minutes before leaving", stats["leave"],
         dict.fromkeys(range(30, 230, 10), .05))
    test("minutes before returning", stats["back"],
         dict.fromkeys(range(240, 440, 10), .05))


def shares(case, ctx, may, names):
    """The kinds have their shares of the households."""
    if len(names) == 1:
        return
    ctx.probe("shares tested")
    n = case["n"]
    groups = [[x] for x in NAMES if KINDS[x][0] != 20.]
    both = ["Hot and Cold Fluctuators", "On-off Switchers"]
    groups.append(both)
    if case["k"] > 100:
        groups += [[x] for x in both]
    for g in groups:
        q = sum(1. / 6 if case["method"] == "random" else KINDS[x][3]
                for x in g)
        mine = np.any([may[x] for x in g], axis=0)
        other = np.any([may[x] for x in names if x not in g], axis=0)
        # those that may be of this kind, and those that must
        c = min(max(n * q, int((mine & ~other).sum())), int(mine.sum()))
        ctx.check(near(c, n, q), "shares", "%d of %d households are %s" % (
            c, n, g))


def unknown(case, ctx, occ, act):
    ctx.fault("unknown kind")
    try:
        build(dict(case, method="Hot Cruisers"), occ, act)
    except ValueError:
        return
    ctx.fail("unknown", "an unknown kind of household is accepted")
