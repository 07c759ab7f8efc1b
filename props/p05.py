"""P05: the simulated clock."""
import copy
import datetime

from sim import simenv, zoo
from sim.simenv import TD, random_start, start_of

shared, populate, prepare = simenv.shared, simenv.populate, simenv.prepare
CASES = {"quick": 1600, "thorough": 60000}
QUICK_S, THOROUGH_S = 100, 1200
CPU_LIMIT = 100
RULE = ("A case creates one simulator (a user-defined one with any step size "
        "and initialisation rule, or one of the library) at a seeded start "
        "time, with clock jumps as faults for the user-defined one, and steps "
        "it; non-trivial if the pair (kind, initialisation rule, position of "
        "the start time relative to the rule) is new.")
STATES = "distinct (kind, rule, step size, number of warm-up steps) tuples"
ASSUMPTIONS = ["daylight saving changes: wall-clock arithmetic of datetime"]
SHRINK = ["steps", "n", "k"]
STEPS = [1, 7, 30, 60, 90, 600, 900, 1800, 3600, 5400, 86400, 100000, .5, 2.25,
         31 * 86400, .1, .3, 1.1, 61.7, 1e-6, 3600.0001]
AWARE = [k for k, c in zoo.KINDS.items() if c.aware] + [
    "sparse", "variable_thermostat"]


def generate(rng, i, tier):
    if rng.random() < .45:
        rule = rng.choice(["none", "time", "time", "time", "datetime",
                           "datetime", "future"])
        st = rng.choice(STEPS)
        c = {"what": "generic", "rule": rule, "step": st,
             "start": random_start(rng, rng.choice([1, 60, 600, 3600]), True,
                                   wide=True),
             "n": rng.choice([1, 3]), "k": rng.randrange(0, 40)}
        if rule == "time":
            c["time"] = rng.choice([0, 4 * 3600, 86399,
                                    rng.randrange(86400)])
            if st < 60:
                c["step"] = 60
        elif rule in ("datetime", "future"):
            c["back"] = rng.choice([0, 1, 59, 60, 3600, 86400,
                                    rng.randrange(200000)])
            if c["back"] / st > 4000:
                c["back"] = int(st * rng.randrange(3000))
        c["jumps"] = sorted(
            [rng.randrange(0, 40), rng.choice([-3600, 1, 60, 86400, 3600])]
            for _ in range(rng.choice([0, 0, 1, 2])))
        # microseconds of the start and of the initialisation
        c["us"] = [rng.choice([0, 0, 0, 1, 250000, 999999])
                   for _ in range(2)]
        return c
    p = zoo.random_params(rng, AWARE)
    return {"what": "zoo", "p": p, "k": rng.randrange(1, 60)}


def shrinks(case):
    from sim.core import generic_shrinks
    for c in generic_shrinks(case, ["k", "n", "jumps", "back", "p.n"]):
        if c.get("n") != 0 and c.get("p", {}).get("n") != 0:
            yield c


def execute(case, ctx):
    (generic if case["what"] == "generic" else subject)(case, ctx)


def generic(case, ctx):
    from demod.simulators.base_simulators import TimeAwareSimulator
    seen = []

    class Mine(TimeAwareSimulator):
        def step(self, value=None):
            seen.append((self.current_time, value))
            super().step()

    us = [TD(microseconds=x) for x in case.get("us", [0, 0])]
    start = start_of(case["start"]) + us[0]
    step = TD(seconds=case["step"])
    sim = Mine(case["n"], start_datetime=start, step_size=step)
    rule = case["rule"]
    ctx.real.add("TimeAwareSimulator")
    init = start
    kw = {}
    if rule == "time":
        kw["initialization_time"] = (
            datetime.datetime(2000, 1, 1) + TD(seconds=case["time"])
            + us[1]).time()
        init = start.replace(hour=0, minute=0, second=0, microsecond=0) \
            + TD(seconds=case["time"]) + us[1]
        if init > start:
            init -= TD(days=1)
    elif rule == "datetime":
        init = start - TD(seconds=case["back"]) - us[1]
        kw["initialization_time"] = init
    elif rule == "future":
        try:
            sim.initialize_starting_state(
                initialization_time=start + TD(seconds=case["back"] + 1))
        except ValueError:
            ctx.probe("refused future")
            return
        ctx.fail("future-accepted", "a simulation which starts at %s was "
                 "initialised from the later time %s" % (
                     start, start + TD(seconds=case["back"] + 1)))
        return
    count = (start - init) // step
    sim.initialize_starting_state(value="warm", **kw)
    ctx.cover("generic", rule, case["step"], min(count, 300))
    ctx.probe("warm-up steps", count)
    want = [start - (count - j) * step for j in range(count)]
    got = [t for t, v in seen]
    ctx.ev(rule, start, step, count, len(got))
    ctx.check(sim.current_time == start, "start", "asked to start at %s "
              "(initialised from %s), but starts at %s" % (
                  start, init, sim.current_time))
    ctx.check(got == want, "warm-up", "the warm-up from %s to %s with steps "
              "of %s visited %d times instead of %d: %s" % (
                  init, start, step, len(got), count, got[:3]))
    ctx.check(all(v == "warm" for t, v in seen), "warm-up-inputs",
              "the warm-up steps did not get the inputs of the caller")
    ctx.check(sim.current_time_step == count, "counter", "counts %s steps "
              "after %d warm-up steps" % (sim.current_time_step, count))
    expected = start
    jumps = {}
    for at, by in case["jumps"]:
        jumps.setdefault(at, []).append(by)
    for k in range(case["k"]):
        for by in jumps.get(k, ()):
            # the user moves the clock, as co-simulations do
            ctx.fault("clock jump")
            sim.current_time += TD(seconds=by)
            expected += TD(seconds=by)
        sim.step()
        expected += step
        ctx.sim_seconds += case["step"]
        ctx.check(sim.current_time == expected, "drift", "after %d steps of "
                  "%s from %s the time is %s instead of %s" % (
                      k + 1, step, start, sim.current_time, expected))
        ctx.check(sim.current_time_step == count + k + 1, "counter",
                  "counts %s steps after %d" % (
                      sim.current_time_step, count + k + 1))
    ctx.ev("end", sim.current_time, sim.current_time_step)


def subject(case, ctx):
    p = case["p"]
    s = zoo.make(p)
    if p.get("start") is None:
        return
    start = s.start()
    sim = s.build()
    ctx.real.add(type(sim).__name__)
    aware = hasattr(sim, "current_time")
    clock = (lambda: sim.current_time) if aware else (lambda: sim.time)
    step = sim.step_size if aware else TD(minutes=10)
    if s.step:
        ctx.check(step == TD(seconds=s.step), "step-size",
                  "%s has steps of %s" % (p["kind"], step))
    elif "step" in p and aware:
        ctx.check(step == TD(seconds=p["step"]), "step-size",
                  "%s has steps of %s instead of %s s" % (
                      p["kind"], step, p["step"]))
    ctx.check(clock() == start, "start", "%s asked to start at %s starts at "
              "%s" % (p["kind"], start, clock()))
    n0 = sim.current_time_step
    ctx.cover(p["kind"], n0, p.get("step"))
    ctx.ev(p["kind"], start, step)
    for k in range(case["k"]):
        s.do_step(sim, k)
        ctx.sim_seconds += step.total_seconds()
        ctx.check(clock() == start + (k + 1) * step, "drift",
                  "%s: after %d steps from %s the time is %s" % (
                      p["kind"], k + 1, start, clock()))
        ctx.check(sim.current_time_step == n0 + k + 1, "counter",
                  "%s counts %s steps after %d" % (
                      p["kind"], sim.current_time_step - n0, k + 1))
    ctx.ev(p["kind"], n0, clock())
