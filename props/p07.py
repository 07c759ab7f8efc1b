"""P07: observing a simulation never changes it."""
import random

import numpy as np

from sim import simenv, zoo
from sim.simenv import Rng, equal, show, snap

shared, populate, prepare = simenv.shared, simenv.populate, simenv.prepare
CASES = {"quick": 700, "thorough": 40000}
QUICK_S, THOROUGH_S = 100, 1800
CPU_LIMIT = 100
RULE = ("A case runs one seeded simulation twice, unobserved and observed at "
        "seeded moments by getters and a logger; non-trivial if the "
        "trajectory of the observed run is new.")
STATES = "distinct (simulator, observed getter) pairs"
ASSUMPTIONS = ["the random numbers come from numpy.random"]
SHRINK = ["k", "p.n"]


def generate(rng, i, tier):
    p = zoo.random_params(rng)
    return {"p": p, "k": rng.choice([0, 1, 1, 2, 3, rng.randrange(60)]),
            "rate": rng.choice([.05, .5, 1.0]),
            "logger": rng.random() < .5,
            "extreme": rng.choice([0, 0, .05])}


def shrinks(case):
    from sim.core import generic_shrinks
    for c in generic_shrinks(case, SHRINK + ["rate", "extreme"]):
        if c["p"]["n"] != 0:
            yield c


def run(case, ctx, observer, logger=None):
    s = zoo.make(case["p"])
    np.random.seed(case["seed"] % 2 ** 32)
    rng = Rng(ctx if observer is None else None, case["extreme"],
              case["seed"])
    with rng:
        sim = s.build(logger=logger)
        for k in range(case["k"]):
            if observer is not None:
                observer(s, sim, k, rng)
            s.do_step(sim, k)
        if observer is not None:
            observer(s, sim, case["k"], rng)
        calls = rng.calls, rng.consumed
        state = np.random.get_state()[1:3]
        rng.rate = 0
        final = snap(s.view(sim))
        after = np.random.get_state()[1:3]
    clock = getattr(sim, "current_time", None), sim.current_time_step
    return s, sim, final, calls, state, after, clock


def execute(case, ctx):
    from demod.simulators.base_simulators import SimLogger
    kind = case["p"]["kind"]
    look = random.Random(case["seed"] + 1)
    held = []

    def observe(s, sim, k, rng):
        if look.random() > case["rate"]:
            return
        names = s.names(sim)
        if look.random() < .7:
            names = look.sample(names, look.randrange(1, len(names) + 1)) \
                if names else []
        else:
            look.shuffle(names)
        before = np.random.get_state()[1:3]
        calls = rng.calls
        first = s.view(sim, names)
        kept = snap(first)
        look.shuffle(names)
        second = s.view(sim, names)
        for n, v in second.items():
            ctx.check(equal(v, kept[n]), "unstable:%s.%s" % (kind, n),
                      "%s: %s after %d steps gives %s, then %s" % (
                          kind, n, k, show(kept[n]), show(v)))
            ctx.cover(kind, n)
        for n in names:
            v = kept.get(n)
            if isinstance(v, np.ndarray) and v.ndim and \
                    len(v) == sim.n_households and n not in (
                        "get_thermal_gains", "get_power_demand"):
                i = look.randrange(len(v))
                try:
                    one = getattr(sim, n)(i)
                except TypeError:
                    continue  # this getter has no argument
                ctx.check(equal(one, v[i]), "household:%s.%s" % (kind, n),
                          "%s: %s(%d) gives %s instead of %s" % (
                              kind, n, i, show(one), show(v[i])))
        ctx.check(calls == rng.calls and equal(
            before, np.random.get_state()[1:3]), "random:%s" % kind,
            "%s: reading %s draws random numbers" % (kind, sorted(names)))
        held.append((k, first, kept))
        ctx.ev(kind, k, simenv.digest(kept))
        ctx.probe("observations", len(names))

    plain = run(case, ctx, None)
    s0, sim0 = plain[:2]
    logger = None
    if case["logger"]:
        names = [n for n, v in plain[2].items() if n.startswith("get_")
                 and loggable(v)]
        if names:
            names = look.sample(names, look.randrange(1, len(names) + 1))
            logger = SimLogger(names, aggregated=False)
            ctx.probe("logged runs")
    watched = run(case, ctx, observe, logger)
    ctx.real.update([type(sim0).__name__, "SimLogger"])
    ctx.sim_seconds += 2 * case["k"] * zoo_step(case, sim0)
    for n in plain[2]:
        ctx.check(n in watched[2] and equal(plain[2][n], watched[2][n]),
                  "changed:%s.%s" % (kind, n),
                  "%s: after %d steps, %s is %s, but %s if the simulation was "
                  "observed" % (kind, case["k"], n, show(plain[2][n]),
                                show(watched[2].get(n))))
    ctx.check(plain[3] == watched[3] and equal(plain[4], watched[4]),
              "draws:%s" % kind, "%s: observing changes the random numbers "
              "which are drawn: %s (calls, numbers) instead of %s" % (
                  kind, watched[3], plain[3]))
    ctx.check(equal(plain[4], plain[5]), "random:%s" % kind,
              "%s: reading the final values draws random numbers" % kind)
    ctx.check(plain[6] == watched[6], "clock:%s" % kind, "%s: observing "
              "changes the clock: %s instead of %s" % (
                  kind, watched[6], plain[6]))
    for k, values, kept in held:
        for n in kept:
            ctx.check(equal(values[n], kept[n]), "overwritten:%s.%s" % (
                kind, n), "%s: the value of %s given after %d steps, %s, was "
                "changed to %s by later steps" % (
                    kind, n, k, show(kept[n]), show(values[n])))
    ctx.ev(kind, simenv.digest(plain[2]))


def loggable(v):
    if isinstance(v, dict):
        return all(loggable(x) for x in v.values())
    return isinstance(v, (np.ndarray, float, int, np.generic)) and \
        np.asarray(v).dtype != object


def zoo_step(case, sim):
    size = getattr(sim, "step_size", None)
    return size.total_seconds() if size is not None else 60
