"""P19: heating follows its thermostats, the demand and its capacity."""
import numpy as np

from props.p12 import near
from props.p18 import Inputs, share
from sim import heatref, simenv
from sim.heatref import expect
from sim.simenv import TD, Rng, equal, rs, show

shared, populate, prepare = simenv.shared, simenv.populate, simenv.prepare
CASES = {"quick": 2400, "thorough": 200000}
QUICK_S, THOROUGH_S = 100, 1500
CPU_LIMIT = 100
RULE = ("A case drives thermostats, controls, demand or heating systems with "
        "seeded temperatures at and around the limits, with lost and invalid "
        "inputs as faults; non-trivial if the sequence of outputs is new.")
STATES = "distinct (component, states, event) tuples"
ASSUMPTIONS = ["the random numbers come from numpy.random",
               "frequencies are compared up to 6.5 standard deviations"]
SHRINK = ["k", "rate", "n", "jumps", "lost"]


def generate(rng, i, tier):
    kind = rng.choice(["thermostat", "controls", "demand", "system"])
    stats = kind in ("thermostat", "system") and rng.random() < .1
    return {"kind": kind, "salt": rng.randrange(10 ** 6), "stats": stats,
            "n": 3000 if stats else rng.choice([1, 2, 5, 12]),
            "k": 2 if stats else rng.choice(
                [1, 10, 10, 60, 60, 250]),
            "step": rng.choice([1, .25, 60, 60, 300, 61.5, 900]),
            "initial": rng.random() < .5, "jumps": rng.choice([0, .1, .5]),
            "lost": rng.choice([0, .1, .4]),
            "algo": rng.choice(["heat_max_emmiters", "room_estimation"]),
            "defaults": rng.random() < .3, "bad": rng.random() < .1,
            "rate": 0 if stats else rng.choice([0, 0, .2])}


def shrinks(case):
    from sim.core import generic_shrinks
    for c in generic_shrinks(case, SHRINK):
        if c["n"] > 0 and c["k"] > 0:
            yield c


def execute(case, ctx):
    with Rng(ctx, case["rate"], case["seed"]):
        np.random.seed(case["seed"] % 2 ** 32)
        globals()[case["kind"]](case, ctx, heatref.Data(case["salt"]))
    ctx.sim_seconds += case["step"] * case["k"]


def bools(r, n):
    return r.random_sample(n) < r.choice([0, .5, .5, 1])


def snapshot(d):
    return {k: np.array(v) for k, v in d.items()}


# ------------------------------------------------------------------ thermostats

def around(r, target, band):
    """Temperatures at, beside and between the limits of a thermostat."""
    n = len(target)
    choice = np.stack([
        target + band, target - band, target, np.nextafter(target + band, 99),
        np.nextafter(target + band, 0), np.nextafter(target - band, 99),
        np.nextafter(target - band, 0), target + .5 * band,
        target - 3 * band, target + 3 * band])
    return choice[r.randint(len(choice), size=n), np.arange(n)]


def thermostat(case, ctx, data):
    from demod.simulators.heating_simulators import Thermostats
    ctx.real.add("Thermostats")
    n, r, band = case["n"], rs(case["salt"], "t"), data.thermostat["deadband"]
    first = None
    if case["initial"]:
        first = {k: np.round(r.choice([15., 20., 49.5, 50., 60.], size=n), 1)
                 for k in ("cylinder", "interior", "emitter")}
    sim = Thermostats(n, initial_temperatures=first, data=data)
    aim = snapshot(sim.get_target_temperatures())
    values = {"space_heating": (data.thermostat["home_temperatures_values"],
                                data.home),
              "dhw": (data.thermostat["water_temperatures_values"],
                      data.water),
              "emitter": (np.array([data.thermostat["emitter_setpoints"]]),
                          np.ones(1))}
    for k, (v, p) in values.items():
        ok = set(v[p > 0])
        ctx.check(len(aim[k]) == n and set(aim[k]) <= ok, "targets", "targets "
                  "of %s for %s, the possible ones are %s" % (
                      show(aim[k]), k, sorted(ok)))
        if case["stats"]:
            ctx.probe("frequency tests")
            for x, q in zip(v, p):
                m = int((aim[k] == x).sum())
                ctx.check(near(m, n, q), "targets", "%d of %d households "
                          "have a target of %s for %s, the share is %.4f" % (
                              m, n, x, k, q))
    on = snapshot(sim.get_thermostat_states())
    for k, part, a in heatref.PARTS:
        want = first[part] < aim[a] if first else np.zeros(n, dtype=bool)
        ctx.check(equal(on[k], want), "start", "the %s thermostats are %s "
                  "instead of %s" % (k, show(on[k]), show(want)))
    for step in range(case["k"]):
        new, want_aim = None, aim
        if r.random_sample() < case["jumps"]:
            new, want_aim = targets(case, ctx, r, aim)
        T = {part: around(r, want_aim[a], band[k])
             for k, part, a in heatref.PARTS}
        sim.step({k: v.copy() for k, v in T.items()}, new)
        got = sim.get_target_temperatures()
        for k in want_aim:
            ctx.check(equal(np.asarray(got[k]), want_aim[k]), "targets",
                      "targets of %s for %s instead of %s" % (
                          show(got[k]), k, show(want_aim[k])))
        aim = want_aim
        want = heatref.thermostats(on, T, aim, band)
        got = snapshot(sim.get_thermostat_states())
        for k, part, a in heatref.PARTS:
            ctx.check(equal(got[k], want[k]), "thermostat", "the %s "
                      "thermostats are %s instead of %s at %s with targets of "
                      "%s +- %s, they were %s" % (
                          k, show(got[k]), show(want[k]), show(T[part]),
                          show(aim[a]), band[k], show(on[k])))
            for x, y in set(zip(on[k].tolist(), got[k].tolist())):
                ctx.cover("thermostat", k, x, y)
        on = got
        ctx.ev(step, simenv.digest(tuple(v.tolist() for v in on.values())))
    if case["bad"]:
        ctx.fault("invalid targets")
        try:
            sim.step(T, [20.0] * n)
            ctx.fail("targets", "targets in a list are accepted")
        except TypeError:
            pass


def targets(case, ctx, r, aim):
    """New targets from outside, with lost ones, and what they result in."""
    n = case["n"]

    def some(old):
        v = np.round(old + r.choice([-3.0, 1.5, 6.0], size=n), 2)
        hole = r.random_sample(n) < case["lost"]
        if hole.any():
            ctx.fault("lost target", int(hole.sum()))
        return np.where(hole, np.nan, v)
    if r.random_sample() < .5:
        v = some(aim["space_heating"])
        return v, dict(aim, space_heating=np.where(
            np.isnan(v), aim["space_heating"], v))
    keys = [k for k in aim if r.random_sample() < .6]
    new = {k: some(aim[k]) for k in keys}
    return new, dict(aim, **{k: np.where(np.isnan(v), aim[k], v)
                             for k, v in new.items()})


# --------------------------------------------------------------------- controls

def controls(case, ctx, data):
    from demod.simulators.heating_simulators import SystemControls
    ctx.real.add("SystemControls")
    n, r = case["n"], rs(case["salt"], "c")
    combi = None if case["defaults"] else bools(r, n)
    sim = SystemControls(n, is_combi_boiler=combi)
    for k, v in sim.get_controls().items():
        ctx.check(equal(np.asarray(v), np.zeros(n, dtype=bool)), "start",
                  "%s is %s" % (k, show(v)))
    combi = np.zeros(n, dtype=bool) if combi is None else combi
    for step in range(case["k"]):
        dhw = np.where(bools(r, n), r.random_sample(n), 0)
        states = {k: bools(r, n) for k, _, _ in heatref.PARTS}
        external = bools(r, n) if r.random_sample() < .5 else None
        sim.step(dhw, {k: v.copy() for k, v in states.items()},
                 *([] if external is None else [external.copy()]))
        want = heatref.controls(combi, dhw, states, external)
        got = snapshot(sim.get_controls())
        for k, v in want.items():
            ctx.check(equal(got[k], v), "controls", "%s is %s instead of %s "
                      "with thermostats %s, hot water %s, combi boilers %s "
                      "and external cylinders %s" % (
                          k, show(got[k]), show(v), show(states), show(dhw),
                          show(combi), show(external)))
        ctx.ev(step, simenv.digest(tuple(v.tolist() for v in got.values())))
        ctx.cover("controls", bool(combi.any()), external is not None,
                  bool(got["heater_on"].any()))


# ----------------------------------------------------------------------- demand

def demand(case, ctx, data):
    from demod.simulators.heating_simulators import (BuildingThermalDynamics,
                                                     HeatDemand,
                                                     HeatingSystem)
    ctx.real.update(["HeatDemand", "HeatingSystem",
                     "BuildingThermalDynamics"])
    n, x = case["n"], Inputs(case, ctx)
    r = x.r
    types = heatref.Types(data, n)
    system = HeatingSystem(n, data=data)
    building = BuildingThermalDynamics(n, system, 5.0, data=data,
                                       target_temperatures=np.full(n, 20.0))
    band = {"space_heating": 1, "hot_water": 5, "emitter": 5}
    kw = {}
    if not case["defaults"]:
        band = data.thermostat["deadband"]
        kw = {"deadbands": dict(band)}
    algo = case["algo"]
    sim = HeatDemand(n, system, building, step_size=TD(seconds=case["step"]),
                     heatdemand_algo=algo, **kw)
    for k in ("dhw", "space_heating"):
        ctx.check(equal(np.asarray(sim.get_heat_demand()[k]), np.zeros(n)),
                  "start", "a demand of %s" % show(sim.get_heat_demand()))
    for step in range(case["k"]):
        T = {k: np.round(a + b * r.random_sample(n), 3) for k, a, b in (
            ("interior", 12, 15), ("emitter", 15, 50), ("cylinder", 30, 40),
            ("building", 5, 15))}
        T["cold_water"] = float(r.choice([10.0, 10.0, 4.0]))
        aim = {"space_heating": np.round(17 + 6 * r.random_sample(n), 1),
               "dhw": r.choice([50., 55.], size=n),
               "emitter": np.full(n, 50.0)}
        dhw = x.each("hot water", 300)
        outside = x.one("outside", -15, 25)
        if r.random_sample() < case["lost"] / 4:
            ctx.fault("lost outside temperature")
            outside = None
        sim.step({k: np.copy(v) if k != "cold_water" else v
                  for k, v in T.items()}, snapshot(aim), dhw.copy(),
                 *([] if outside is None else [outside]))
        if outside is None:
            # it changes its algorithm, with a warning
            algo = "heat_max_emmiters"
        want = heatref.demand(types, float(case["step"]), T, aim, band, dhw,
                              outside, algo)
        got = sim.get_heat_demand()
        for k, v in want.items():
            expect(ctx, "demand", types, v, got[k],
                   "the %s demand (%s)" % (k, algo), 1e-8)
        ctx.ev(step, simenv.digest(got["dhw"]))
        ctx.cover("demand", algo, outside is None,
                  bool((got["space_heating"] < 0).any()))
    if case["bad"]:
        ctx.fault("invalid algorithm")
        sim = HeatDemand(n, system, building, heatdemand_algo="other")
        try:
            sim.step(T, aim, dhw, 5.0)
            ctx.fail("demand", "an unknown algorithm is accepted")
        except ValueError:
            pass


# --------------------------------------------------------------- heating system

def system(case, ctx, data):
    from demod.simulators.heating_simulators import HeatingSystem
    ctx.real.add("HeatingSystem")
    n, r = case["n"], rs(case["salt"], "s")
    types = heatref.Types(data, n)
    off = {k: np.zeros(n, dtype=bool) for k in (
        "heater_on", "heat_water_on", "space_heating_on")}
    kw, c, want = {}, off, {k: np.zeros(n) for k in ("dhw", "space_heating")}
    if case["initial"]:
        c, want = draw(case, r, n, data)
        kw = {"initial_controls": snapshot(c),
              "initial_heat_demand": snapshot(want)}
    sim = HeatingSystem(n, data=data, **kw)
    expect(ctx, "types", types, types.combi, sim.is_combi_boiler, "combi")
    for step in range(case["k"] + 1):
        out = heatref.outputs(types, c, want)
        got = sim.get_heat_outputs()
        for k, v in out.items():
            expect(ctx, "heat", types, v, got[k], "the heat (%s) for a "
                   "demand of %s with %s" % (k, show(want), show(c)))
        use = heatref.consumption(types, c, out)
        fuel = dict(sim.get_fuel_consumptions())
        for k in heatref.FUELS:
            expect(ctx, "fuel", types, use[k], fuel.pop(k, np.zeros(n)),
                   "the use of " + k)
        ctx.check(not fuel, "fuel", "fuels of %s" % sorted(fuel))
        for k, name in (("pump", "get_pumps_power_consumptions"),
                        ("power", "get_power_demand"),
                        ("energy", "get_energy_consumption")):
            expect(ctx, k, types, use[k], getattr(sim, name)(), "the " + k)
        ctx.ev(step, simenv.digest(got["total"]))
        ctx.cover("system", bool(c["heater_on"].any()), bool(
            (got["total"] > 0).any()), bool((np.asarray(
                got["space_heating"]) > 0).any()))
        c, want = draw(case, r, n, data)
        sim.step(snapshot(c), snapshot(want))
    if case["stats"]:
        share(ctx, types, "heating system", types.s, data.systems)


def draw(case, r, n, data):
    """Controls, and demands around the capacities of the systems."""
    if r.random_sample() < .7:
        a, b = bools(r, n), bools(r, n)
        c = {"heat_water_on": a, "space_heating_on": b, "heater_on": a | b}
    else:
        c = {k: bools(r, n) for k in ("heat_water_on", "space_heating_on",
                                      "heater_on")}
    tops = np.concatenate([data.systems["heat_output_sh"],
                           data.systems["heat_output_dhw"]])
    want = {k: r.choice([-500.0, 0.0, 1.0, .3, .999, 1.001, 5.0], size=n)
            * r.choice(tops, size=n) for k in ("dhw", "space_heating")}
    return c, want
