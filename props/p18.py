"""P18: the temperatures of buildings obey the balance of energy."""
import numpy as np

from props.p12 import near
from sim import heatref, simenv
from sim.heatref import expect
from sim.simenv import TD, Rng, equal, rs, show

shared, populate, prepare = simenv.shared, simenv.populate, simenv.prepare
CASES = {"quick": 1500, "thorough": 150000}
QUICK_S, THOROUGH_S = 100, 1500
CPU_LIMIT = 100
RULE = ("A case simulates seeded buildings under seeded weather, gains, hot "
        "water and heat, with sudden changes of them as faults; non-trivial "
        "if the sequence of temperatures is new.")
STATES = "distinct (input, direction of the temperatures) tuples"
ASSUMPTIONS = ["the random numbers come from numpy.random",
               "frequencies are compared up to 6.5 standard deviations"]
SHRINK = ["k", "rate", "n", "jumps"]


def generate(rng, i, tier):
    stats = rng.random() < .08
    return {"salt": rng.randrange(10 ** 6), "stats": stats,
            "n": 3000 if stats else rng.choice([1, 2, 5, 12]),
            "k": 2 if stats else rng.choice([1, 10, 60, 200]),
            "step": rng.choice([1, .5, 10, 60, 60, 60, 1.75, 300, 900]),
            "targets": rng.random() < .8, "array": rng.random() < .5,
            "jumps": rng.choice([0, .05, .4]),
            "outside": rng.choice([-25.0, 0.0, 9.5, 20.0, 42.0]),
            "rate": 0 if stats else rng.choice([0, 0, .2])}


def shrinks(case):
    from sim.core import generic_shrinks
    for c in generic_shrinks(case, SHRINK):
        if c["n"] > 0 and c["k"] > 0:
            yield c


class Inputs:
    """Slowly varying inputs, with sudden changes."""

    def __init__(self, case, ctx):
        self.case, self.ctx = case, ctx
        self.r = rs(case["salt"], "inputs")
        self.n = case["n"]
        self.kind = {}

    def choose(self, name):
        r = self.r
        jump = r.random_sample() < self.case["jumps"]
        if jump:
            self.ctx.fault("sudden " + name)
        if jump or name not in self.kind:
            self.kind[name] = r.randint(3)
        return self.kind[name]

    def each(self, name, top):
        k = self.choose(name)
        if k == 0:
            return np.zeros(self.n)
        v = top * self.r.random_sample(self.n)
        return np.where(self.r.random_sample(self.n) < .4, 0, v) \
            if k == 1 else v

    def one(self, name, low, top):
        k = self.choose(name)
        return float(low if k == 0 else top if k == 1 else
                     low + (top - low) * self.r.random_sample())


def execute(case, ctx):
    with Rng(ctx, case["rate"], case["seed"]):
        np.random.seed(case["seed"] % 2 ** 32)
        run(case, ctx)


def run(case, ctx):
    from demod.simulators.heating_simulators import (BuildingThermalDynamics,
                                                     HeatingSystem)
    ctx.real.update(["BuildingThermalDynamics", "HeatingSystem"])
    data, n = heatref.Data(case["salt"]), case["n"]
    types = heatref.Types(data, n)
    x = Inputs(case, ctx)
    target = np.round(17 + 6 * x.r.random_sample(n), 2)
    system = HeatingSystem(n, data=data)
    sim = BuildingThermalDynamics(
        n, system, case["outside"], data=data,
        step_size=TD(seconds=case["step"]),
        target_temperatures=target.copy() if case["targets"] else None)
    T = {k: np.array(v) for k, v in sim.get_temperatures().items()}
    start(case, ctx, types, T, target)
    for k in range(case["k"]):
        outside = x.one("outside", case["outside"] - 8, case["outside"] + 8)
        sun = x.one("sun", 0, 900)
        dhw = x.each("hot water", 300)
        gains = [x.each(s, 800) for s in ("occupants", "light",
                                          "appliances")]
        heat = {"dhw": x.each("water heat", 20000),
                "space_heating": x.each("space heat", 20000)}
        heat["total"] = heat["dhw"] + heat["space_heating"]
        if case["array"]:
            outside = outside + x.r.random_sample(n)
            sun = sun * x.r.random_sample(n)
        sim.step(outside, sun, dhw, *gains, heat)
        want = heatref.temperatures(types, float(case["step"]), T, outside,
                                    sun, dhw, sum(gains), heat)
        new = {a: np.array(v) for a, v in sim.get_temperatures().items()}
        for part in want:
            # up to the rounding of large opposite flows
            expect(ctx, "balance", types, want[part], new[part],
                   "the %s temperature after step %d" % (part, k + 1), 1e-7)
        ctx.check(equal(new.get("cold_water"), T["cold_water"]), "balance",
                  "the cold water changes")
        ctx.ev(k, simenv.digest(new["interior"]))
        ctx.cover(tuple(sorted(x.kind.items()))[:4],
                  bool((new["interior"] > T["interior"]).any()))
        T = new
    if case["stats"]:
        share(ctx, types, "building", types.b, data.buildings)
        share(ctx, types, "heating system", types.s, data.systems)
    ctx.sim_seconds += case["step"] * case["k"]


def share(ctx, types, what, index, table):
    """The types occur as often as the data say."""
    ctx.probe("frequency tests")
    n = types.alive.shape[1]
    for i in range(table["number"]):
        rows = types.alive[index == i]
        low = (types.alive.any(axis=0) & ~types.alive[index != i].any(
            axis=0)).sum()
        high = rows.any(axis=0).sum() if len(rows) else 0
        q = table["equipped_prob"][i]
        ctx.check(any(near(m, n, q) for m in (low, high)) or
                  low <= n * q <= high, "types", "%d to %d of %d households "
                  "have a %s of the share %.4f" % (low, high, n, what, q))


def start(case, ctx, types, T, target):
    inside, n = T["interior"], case["n"]
    ctx.check(set(T) >= {"interior", "building", "emitter", "cylinder"},
              "start", "only temperatures of %s" % sorted(T))
    if case["targets"]:
        ctx.check(bool((np.abs(inside - target) <= 1).all()), "start",
                  "temperatures of %s with targets of %s" % (
                      show(inside), show(target)))
        ctx.check(equal(T["building"], (target + case["outside"]) / 2, 1e-9),
                  "start", "buildings of %s with targets of %s and %s outside"
                  % (show(T["building"]), show(target), case["outside"]))
        expect(ctx, "start", types, np.where(
            inside >= target, inside, types.b_emitters_target_temperature),
            T["emitter"], "the emitter temperature")
        ctx.cover(bool((inside >= target).any()))
    elif case["stats"]:
        # around N(20, 2), and up to 1 around it
        ctx.probe("frequency tests")
        m, s = inside.mean(), inside.std()
        ctx.check(abs(m - 20) <= 6.5 * 2.1 / n ** .5 and
                  abs(s - (4 + 1 / 3) ** .5) <= .2, "start", "temperatures "
                  "around %.3f by %.3f" % (m, s))
    c = T["cylinder"]
    ctx.check(bool(((c >= 50) & (c <= 52)).all()), "start", "cylinders of %s"
              % show(c))
