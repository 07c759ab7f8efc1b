"""P20: external heating components replace exactly what they provide."""
import numpy as np

from props.p18 import Inputs
from sim import heatref, simenv
from sim.heatref import expect
from sim.simenv import TD, Rng, equal, show

shared, populate, prepare = simenv.shared, simenv.populate, simenv.prepare
CASES = {"quick": 1200, "thorough": 120000}
QUICK_S, THOROUGH_S = 100, 1500
CPU_LIMIT = 100
RULE = ("A case simulates the heating of seeded households together with "
        "external thermostats, heating systems and cylinders, whose values "
        "are lost, or which are silent, as faults; non-trivial if the "
        "sequence of temperatures is new.")
STATES = "distinct (external values given, controls) tuples"
ASSUMPTIONS = ["the random numbers come from numpy.random"]
SHRINK = ["k", "rate", "n", "jumps", "lost", "silent"]
EXTERNAL = ["target", "heat", "dhw", "sh", "cylinder"]


def generate(rng, i, tier):
    return {"salt": rng.randrange(10 ** 6), "n": rng.choice([1, 2, 5, 12]),
            "k": rng.choice([1, 1, 5, 5, 20, 20, 60, 160]),
            "step": rng.choice([1, 60, 60, 2.5, 300]),
            "jumps": rng.choice([0, .05, .3]),
            "outside": rng.choice([-15.0, 5.0, 15.0, 33.0]),
            "lost": rng.choice([0, .1, .5]),
            "silent": rng.choice([0, .2, .6]),
            "use": [e for e in EXTERNAL if rng.random() < .4],
            "dict": rng.random() < .4, "target_dict": rng.random() < .5,
            "combi": rng.choice([None, None, True, False]),
            "replace": rng.choice([None, None, 0, 3]),
            "algo": rng.choice(["heat_max_emmiters", "room_estimation"]),
            "rate": rng.choice([0, 0, .2])}


def shrinks(case):
    from sim.core import generic_shrinks
    for c in generic_shrinks(case, SHRINK):
        if c["n"] > 0 and c["k"] > 0:
            yield c
    for e in case["use"]:
        yield dict(case, use=[x for x in case["use"] if x != e])


def execute(case, ctx):
    with Rng(ctx, case["rate"], case["seed"]):
        np.random.seed(case["seed"] % 2 ** 32)
        run(case, ctx)
    ctx.sim_seconds += case["step"] * case["k"]


def snapshot(d):
    return {k: np.array(v) for k, v in d.items()}


class External:
    """What the external components send in a step."""

    def __init__(self, case, ctx, r):
        self.case, self.ctx, self.r = case, ctx, r

    def array(self, name, values):
        case, r = self.case, self.r
        if name not in case["use"]:
            return None
        if r.random_sample() < case["silent"]:
            self.ctx.fault("external %s silent" % name)
            return None
        v = np.round(r.choice(values, size=case["n"])
                     * (.8 + .4 * r.random_sample(case["n"])), 2)
        hole = r.random_sample(case["n"]) < case["lost"]
        if hole.any():
            self.ctx.fault("external %s lost" % name, int(hole.sum()))
        return np.where(hole, np.nan, v)

    def draw(self):
        case = self.case
        out = {"dhw": self.array("dhw", [0., 900., 15000.]),
               "sh": self.array("sh", [0., 900., 9000.]),
               "cylinder": self.array("cylinder", [20., 45., 60.]),
               "target": self.array("target", [16., 20., 25.]),
               "heat": self.array("heat", [0., 500., 5000., 30000.])}
        if case["dict"] and out["heat"] is not None:
            d = {"dhw": out["heat"], "space_heating": self.array(
                "heat", [0., 4000.])}
            out["heat"] = {k: v for k, v in d.items() if v is not None and
                           self.r.random_sample() < .7}
        if case["target_dict"] and out["target"] is not None:
            d = {"space_heating": out["target"],
                 "dhw": self.array("target", [45., 60.]),
                 "emitter": self.array("target", [40., 55.])}
            out["target"] = {k: v for k, v in d.items() if v is not None}
        return out


def over(base, value):
    return base if value is None else np.where(np.isnan(value), base, value)


def split(total, c, want):
    """The parts of an external heat output: water first, as demanded, and
    what the rooms do not need goes to the cylinder."""
    space = np.where(c["heater_on"] & c["space_heating_on"], np.clip(
        want["space_heating"], 0, total - np.where(
            c["heat_water_on"], np.clip(want["dhw"], 0, total), 0)), 0.0)
    return {"dhw": np.where(np.isnan(total), np.nan, total - space),
            "space_heating": np.where(np.isnan(total), np.nan, space)}


def run(case, ctx):
    from demod.simulators.heating_simulators import (
        FiveModulesHeatingSimulator, HeatingSystem)
    ctx.real.update(["FiveModulesHeatingSimulator", "HeatingSystem",
                     "Thermostats", "SystemControls", "HeatDemand",
                     "BuildingThermalDynamics"])
    ctx.stub.update(["external thermostat, heating system and cylinder"])
    n, data = case["n"], heatref.Data(case["salt"], case["combi"])
    dt, band = float(case["step"]), data.thermostat["deadband"]
    types, x = heatref.Types(data, n), Inputs(case, ctx)
    ext = External(case, ctx, x.r)
    sim = FiveModulesHeatingSimulator(
        n, case["outside"], data=data, step_size=TD(seconds=case["step"]),
        heatdemand_algo=case["algo"])
    T, aim = snapshot(sim.get_temperatures()), snapshot(
        sim.get_target_temperatures())
    on, c = snapshot(sim.get_thermostat_states()), snapshot(
        sim.get_controls())
    ctx.check(bool((np.abs(T["interior"] - aim["space_heating"]) <= 1).all()),
              "start", "temperatures of %s with targets of %s" % (
                  show(T["interior"]), show(aim["space_heating"])))
    want = {k: np.zeros(n) for k in ("dhw", "space_heating")}
    for step in range(case["k"]):
        if step == case["replace"]:
            ctx.fault("heating system replaced")
            other = heatref.Data(case["salt"] + 1)
            keep = int(np.argmax(other.systems["equipped_prob"]))
            p = np.zeros(other.systems["number"])
            p[keep] = 1
            other.systems["equipped_prob"] = p
            sim.set_external_heating_system(HeatingSystem(n, data=other))
            types.loss = other.systems["cyl_loss"][keep]
            types.C_cyl = other.systems["cyl_volume"][keep] * 4200.0
            types.combi = np.full(n, other.systems["is_combi"][keep])
        outside = x.one("outside", case["outside"] - 8, case["outside"] + 8)
        sun, dhw = x.one("sun", 0, 900), x.each("hot water", 300)
        gains = [x.each(s, 800) for s in ("occupants", "light",
                                          "appliances")]
        e = ext.draw()
        sent = simenv.snap(e)
        sim.step(outside, sun, dhw, *gains, **{k: v for k, v in {
            "external_target_temperature": e["target"],
            "external_heat_outputs": e["heat"],
            "external_dhw_outputs": e["dhw"],
            "external_sh_outputs": e["sh"],
            "external_cylinder_temperature": e["cylinder"]}.items()
            if v is not None})
        ctx.check(equal(e, sent), "inputs", "the external values given to "
                  "the step were modified: %s instead of %s" % (
                      show(e), show(sent)))
        # what is given from outside
        given = {"dhw": np.full(n, np.nan), "space_heating": np.full(
            n, np.nan)}
        if isinstance(e["heat"], dict):
            given.update(e["heat"])
        elif e["heat"] is not None:
            # by the controls and the demand which it was sent
            given = split(e["heat"], c, want)
        given["dhw"] = over(given["dhw"], e["dhw"])
        given["space_heating"] = over(given["space_heating"], e["sh"])
        T["cylinder"] = over(T["cylinder"], e["cylinder"])
        tank = np.zeros(n, dtype=bool) if e["cylinder"] is None else \
            ~np.isnan(e["cylinder"])
        new = e["target"] if isinstance(e["target"], dict) else {} if \
            e["target"] is None else {"space_heating": e["target"]}
        aim = {k: over(v, new.get(k)) for k, v in aim.items()}
        # the own components
        on = heatref.thermostats(on, T, aim, band)
        c = heatref.controls(types.combi, dhw, on, tank)
        want = heatref.demand(types, dt, T, aim, band, dhw, outside,
                              case["algo"])
        own = heatref.outputs(types, c, want)
        heat = {k: over(own[k], given[k]) for k in given}
        out = heatref.temperatures(types, dt, T, outside, sun, dhw,
                                   sum(gains), heat)
        power = np.where(np.all([np.isnan(v) for v in given.values()],
                                axis=0),
                         heatref.consumption(types, c, own)["power"], 0.0)
        asked = np.where(tank, dhw * (aim["dhw"] - T["cold_water"])
                         + types.loss * (T["cylinder"] - T["interior"]),
                         want["dhw"]) * c["heat_water_on"]
        space = want["space_heating"] * c["space_heating_on"]
        note = " in step %d with %s given" % (
            step, sorted(k for k, v in e.items() if v is not None))
        for k, v in aim.items():
            ctx.check(equal(np.asarray(sim.get_target_temperatures()[k]), v),
                      "target", "targets of %s for %s instead of %s%s" % (
                          show(sim.get_target_temperatures()[k]), k, show(v),
                          note))
        for k, v in on.items():
            ctx.check(equal(np.asarray(sim.get_thermostat_states()[k]), v),
                      "thermostat", "%s thermostats %s instead of %s%s" % (
                          k, show(sim.get_thermostat_states()[k]), show(v),
                          note))
        for k, v in c.items():
            expect(ctx, "controls", types, v, sim.get_controls()[k],
                   k + note)
        for k, v in list(heat.items()) + [("total", sum(heat.values()))]:
            expect(ctx, "heat", types, v, sim.get_heat_outputs()[k],
                   "the heat for %s%s" % (k, note), 1e-7)
        for name, v in (("dhw_heat_demand", asked),
                        ("sh_heat_demand", space),
                        ("total_heat_demand", asked + space),
                        ("power_demand", power),
                        ("room_temperature", out["interior"])):
            expect(ctx, name, types, v, getattr(sim, "get_" + name)(),
                   name + note, 1e-7)
        for k, v in out.items():
            expect(ctx, "temperature", types, v, sim.get_temperatures()[k],
                   "the %s temperature%s" % (k, note), 1e-7)
        # go on from what is observed
        T, aim = snapshot(sim.get_temperatures()), snapshot(
            sim.get_target_temperatures())
        on, c = snapshot(sim.get_thermostat_states()), snapshot(
            sim.get_controls())
        ctx.ev(step, simenv.digest(T["interior"]))
        ctx.cover(tuple(sorted(k for k, v in e.items() if v is not None)),
                  bool(c["heat_water_on"].any()),
                  bool(c["space_heating_on"].any()))
