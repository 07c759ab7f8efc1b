"""P21: a household's load is the sum of parts which see the same world."""
import inspect

import numpy as np

from sim import simenv
from sim.fakedata import FakeAll, FakeCrestTOU, FakeSky, records_from
from sim.simenv import TD, Rng, equal, random_start, rs, show, start_of

shared, populate, prepare = simenv.shared, simenv.populate, simenv.prepare
CASES = {"quick": 140, "thorough": 12000}
QUICK_S, THOROUGH_S = 100, 1500
CPU_LIMIT = 120
RULE = ("A case simulates the load of seeded households, with or without "
        "climate and heating, coupled to external components whose values "
        "are lost or missing as faults; non-trivial if the sequence of loads "
        "is new.")
STATES = "distinct (parts, external values given) tuples"
ASSUMPTIONS = ["the random numbers come from numpy.random",
               "the parts are the documented attributes climate, "
               "activity_simulator, appliance_simulator, light_sim, heating"]
SHRINK = ["k", "rate", "lost", "refused"]
EXTERNAL = ["outside_temperature", "irradiance", "target_temperature",
            "heat_outputs", "dhw_outputs", "sh_outputs",
            "cylinder_temperature"]


def generate(rng, i, tier):
    start = random_start(rng, 60, False, wide=True)
    if rng.random() < .5:
        start["t"] = start["t"][:11] + rng.choice(["04:00:00", "00:00:00"])
    if rng.random() < .3:
        start["z"] = rng.choice(simenv.ZONES)
    return {"salt": rng.randrange(10 ** 6), "start": start,
            "sizes": rng.choice([[1, 2, 3], [2], [1, 5], [3, 1, 2, 4]]),
            "n": rng.choice([1, 2, 3, 5, 9, 30]),
            "activity": rng.choice(["sparse", "sparse", "crest"]),
            "climate": rng.choice(["real", "real", "crest", "none"]),
            "heating": rng.random() < .75,
            "use": [e for e in EXTERNAL if rng.random() < .3],
            "lost": rng.choice([0, .1, .5]), "refused": rng.choice([0, 0, .3]),
            "k": rng.choice([1, 1, 12, 12, 35, 35, 90, 180]),
            "observe": rng.choice([0, .3, 1]),
            "rate": rng.choice([0, 0, .02])}


def shrinks(case):
    from sim.core import generic_shrinks
    for c in generic_shrinks(case, SHRINK):
        if c["k"] > 0:
            yield c
    for e in case["use"]:
        yield dict(case, use=[x for x in case["use"] if x != e])


class Data:
    """Delegates to the first of the synthetic datasets that has an item."""

    def __init__(self, case):
        s = case["salt"]
        parts = [FakeAll(s, sizes=case["sizes"],
                         start=records_from(case["start"]["t"]),
                         hours=24 * 430)]
        if case["activity"] == "crest":
            parts.insert(0, FakeCrestTOU(s, sizes=case["sizes"]))
        if case["climate"] == "crest":
            parts.insert(0, FakeSky(s, lat=47.0))
        self.crest = case["climate"] == "crest"
        self.parts = parts

    def load_historical_climate_data(self, start):
        if self.crest:
            raise NotImplementedError("no historical data here")
        return self.parts[-1].load_historical_climate_data(start)

    def __getattr__(self, name):
        if name == "parts":
            raise AttributeError(name)
        for p in self.parts:
            if hasattr(p, name):
                return getattr(p, name)
        raise AttributeError(name)


class Record:
    """Records with which arguments a part is stepped."""

    def __init__(self, part):
        self.calls, self.at, real = [], [], part.step
        names = [p for p in inspect.signature(real).parameters]

        def step(*args, **kwargs):
            try:
                bound = inspect.signature(real).bind(*args, **kwargs)
                bound.apply_defaults()
                given = dict(bound.arguments)
            except TypeError:
                given = dict(zip(names, args), **kwargs)
            self.calls.append({k: copy(v) for k, v in flat(given).items()})
            return real(*args, **kwargs)
        part.step = step


def flat(d):
    """Arguments passed through *args of decorated methods."""
    out = {}
    for k, v in d.items():
        if k == "args" and isinstance(v, tuple):
            out.update({"arg%d" % i: x for i, x in enumerate(v)})
        elif k == "kwargs" and isinstance(v, dict):
            out.update(v)
        else:
            out[k] = v
    return out


def copy(v):
    if isinstance(v, dict):
        return {k: copy(x) for k, x in v.items()}
    return np.array(v) if isinstance(v, np.ndarray) else v


def execute(case, ctx):
    with Rng(ctx, case["rate"], case["seed"]):
        np.random.seed(case["seed"] % 2 ** 32)
        run(case, ctx)


def external(case, ctx, r, n):
    """What the external components give in a step."""
    out = {}
    for e in EXTERNAL:
        v = {"outside_temperature": lambda: float(r.choice(
                 [0., round(r.uniform(-9, 30), 3), 5.])),
             "irradiance": lambda: float(r.choice([0., 30., 700.])),
             "target_temperature": lambda: r.choice([17., 21.], size=n),
             "heat_outputs": lambda: r.choice([0., 900., 7000.], size=n),
             "dhw_outputs": lambda: r.choice([0., 500.], size=n),
             "sh_outputs": lambda: r.choice([0., 800.], size=n),
             "cylinder_temperature": lambda: r.choice([30., 55.], size=n)}[e]()
        needed = case["climate"] == "none" and e in EXTERNAL[:2]
        if not needed and e not in case["use"]:
            continue
        if not needed and r.random_sample() < case["lost"]:
            ctx.fault("external %s silent" % e)
            continue
        if isinstance(v, np.ndarray):
            hole = r.random_sample(n) < case["lost"]
            if hole.any():
                ctx.fault("external %s lost" % e, int(hole.sum()))
                v = np.where(hole, np.nan, v)
        out["external_" + e] = v
    return out


def run(case, ctx):
    from demod.simulators.load_simulators import LoadSimulator
    ctx.real.update(["LoadSimulator", "the simulators of its parts"])
    ctx.stub.add("external components")
    n, r, start = case["n"], rs(case["salt"], "load"), start_of(case["start"])
    data, climate = Data(case), case["climate"] != "none"
    sim = LoadSimulator(
        n, start_datetime=start, data=data, include_climate=climate,
        include_heating=case["heating"], initial_outside_temperature=7.0)
    sizes = residents(case, n)
    parts = {"activity": sim.activity_simulator,
             "appliances": sim.appliance_simulator, "light": sim.light_sim}
    if climate:
        parts["climate"] = sim.climate
    if case["heating"]:
        parts["heating"] = sim.heating
    rec = {k: Record(v) for k, v in parts.items()}
    look(case, ctx, sim, parts, n, sizes, start, start, 0)
    if case["heating"]:
        at_start(ctx, sim, parts)
    for k in range(case["k"]):
        given = external(case, ctx, r, n)
        if not climate and r.random_sample() < case["refused"]:
            refuse(ctx, sim, rec, given, r)
        for x in rec.values():
            x.calls = []
        sim.step(**{a: copy(v) for a, v in given.items()})
        inputs(case, ctx, sim, parts, rec, given, k)
        if r.random_sample() < case["observe"] or k + 1 == case["k"]:
            look(case, ctx, sim, parts, n, sizes, start,
                 start + (k + 1) * TD(minutes=1), k + 1)
        ctx.cover(case["activity"], case["climate"], case["heating"],
                  tuple(sorted(given)))
    ctx.sim_seconds += 60 * case["k"]


def at_start(ctx, sim, parts):
    """The buildings start between the outside and the inside."""
    outside = parts["climate"].get_outside_temperature() \
        if "climate" in parts else 7.0
    t = sim.heating.get_temperatures()
    off = 2 * np.asarray(t["building"]) - outside - np.asarray(t["interior"])
    ctx.check(bool((abs(off) <= 1 + 1e-9).all()), "start", "buildings start "
              "at %s with %s inside and %s outside" % (
                  show(t["building"]), show(t["interior"]), show(outside)))


def residents(case, n):
    """The number of residents of each household."""
    from demod.simulators.util import sample_population
    s = case["sizes"]
    return np.repeat(s, sample_population(n, [1. / len(s)] * len(s)))


def refuse(ctx, sim, rec, given, r):
    """A step without the weather is refused, and does nothing."""
    for x in rec.values():
        x.calls = []
    kw = dict(given)
    kw.pop("external_" + r.choice(EXTERNAL[:2]))
    ctx.fault("weather missing")
    before = (sim.current_time, np.array(sim.get_power_demand()))
    try:
        sim.step(**kw)
        ctx.fail("weather", "a step without the weather is accepted")
    except ValueError:
        pass
    after = (sim.current_time, np.array(sim.get_power_demand()))
    ctx.check(not any(x.calls for x in rec.values()) and
              equal(before[1], after[1]) and before[0] == after[0], "weather",
              "a refused step changes the simulation from %s to %s" % (
                  show(before), show(after)))


def inputs(case, ctx, sim, parts, rec, given, k):
    """Every part was stepped once, with what the other parts show."""
    for name, x in rec.items():
        if name == "activity":
            # one step in every ten minutes
            x.at += [k] * len(x.calls)
            ctx.check(x.at == list(range(x.at[0] if x.at else 0, k + 1, 10))
                      if x.at else k < 9, "steps", "the activity was stepped "
                      "in the minutes %s" % x.at)
            continue
        ctx.check(len(x.calls) == 1, "steps", "the %s was stepped %d times "
                  "in a step" % (name, len(x.calls)))
    active = np.asarray(sim.activity_simulator.get_active_occupancy())
    if "climate" in parts:
        outside, sun = (sim.climate.get_outside_temperature(),
                        sim.climate.get_irradiance())
    outside = given.get("external_outside_temperature", None) if \
        "external_outside_temperature" in given else outside
    sun = given.get("external_irradiance", None) if \
        "external_irradiance" in given else sun
    for name, values in (("appliances", [active]), ("light", [active, sun])):
        got = list(rec[name].calls[0].values())
        ctx.check(len(got) >= len(values) and all(
            equal(np.asarray(a), np.asarray(b)) for a, b in zip(got, values)),
            "inputs", "the %s gets %s instead of %s" % (
                name, show(got), show(values)))
    if "heating" not in parts:
        return
    want = {"outside_temperature": outside, "irradiance": sun,
            "dhw_heating_demand":
                sim.appliance_simulator.get_dhw_heating_demand(),
            "occupancy_thermal_gains":
                sim.activity_simulator.get_thermal_gains(),
            "lighting_thermal_gains": sim.light_sim.get_thermal_gains(),
            "appliances_thermal_gains":
                sim.appliance_simulator.get_thermal_gains()}
    for e in EXTERNAL[2:]:
        want["external_" + e] = given.get("external_" + e)
    got = rec["heating"].calls[0]
    for a, v in want.items():
        g = got.get(a)
        ctx.check((v is None and g is None) or (
            v is not None and g is not None
            and equal(np.asarray(g), np.asarray(v))), "inputs", "the heating "
            "gets %s instead of %s as %s" % (show(g), show(v), a))


def look(case, ctx, sim, parts, n, sizes, start, now, k):
    ctx.check(sim.current_time == now, "time", "%s instead of %s" % (
        sim.current_time, now))
    if "climate" in parts:
        ctx.check(sim.climate.current_time == now, "time", "the weather of "
                  "%s at %s" % (sim.climate.current_time, now))
    clock = getattr(sim.activity_simulator, "current_time", now)
    ctx.check(abs((clock - now).total_seconds()) <= 600, "time",
              "the activities of %s at %s" % (clock, now))
    total = np.zeros(n)
    for name in ("appliances", "light", "heating"):
        if name in parts:
            v = np.asarray(parts[name].get_power_demand(), dtype=float)
            ctx.check(v.shape == (n,), "parts", "%s of the %s for %d "
                      "households" % (v.shape, name, n))
            total = total + v
    got = np.asarray(sim.get_power_demand(), dtype=float)
    ctx.check(equal(got, total, 1e-12), "sum", "a load of %s, its parts sum "
              "up to %s" % (show(got), show(total)))
    ctx.check(bool((got >= 0).all()), "sum", "a load of %s" % show(got))
    occ = np.asarray(sim.activity_simulator.get_active_occupancy())
    ctx.check(occ.shape == (n,) and bool((occ <= sizes).all()), "households",
              "%s active occupants in households of %s" % (
                  show(occ), show(sizes)))
    if "heating" in parts:
        for name in ("total_heat_demand", "dhw_heat_demand",
                     "sh_heat_demand"):
            ctx.check(equal(np.asarray(getattr(sim, "get_" + name)()),
                            np.asarray(getattr(sim.heating, "get_" + name)()),
                            1e-12), "heat", "%s differs from the heating's"
                      % name)
        a, b = sim.get_temperatures(), sim.heating.get_temperatures()
        ctx.check(equal({x: np.asarray(v) for x, v in a.items()},
                        {x: np.asarray(v) for x, v in b.items()}), "heat",
                  "the temperatures differ from the heating's")
    ctx.ev(k, simenv.digest(got))
