"""P14: appliances run for their cycle, and only when they may."""
import datetime
import math
import random

import numpy as np

from props.p12 import near
from sim import fakedata as F
from sim import simenv, zoo
from sim.simenv import Rng, TD, equal, random_start, rs, show

shared, populate, prepare = simenv.shared, simenv.populate, simenv.prepare
CASES = {"quick": 360, "thorough": 40000}
QUICK_S, THOROUGH_S = 100, 1800
CPU_LIMIT = 100
RULE = ("A case simulates seeded appliances over seeded dates, occupancies "
        "with sudden departures and extreme random draws, and follows each "
        "appliance of each household through its cycles; non-trivial if the "
        "pattern of uses is new.")
STATES = "distinct (appliance features, event) tuples"
ASSUMPTIONS = ["the random numbers come from numpy.random",
               "frequencies are compared up to 6.5 standard deviations"]
SHRINK = ["k", "rate", "counts", "apps"]
TYPES = ["hob", "electric_hob", "gas_hob", "tv", "big_tv", "oven",
         "dish_washer", "kettle"]


def generate(rng, i, tier):
    stats = rng.random() < .08
    n_sub = rng.choice([1, 2, 3])
    start = random_start(rng, 60, True, wide=True)
    refresh = rng.choice([4, 4, 4, 0, 13])
    k = None
    if rng.random() < .6:
        # a short warm-up
        t = datetime.datetime.fromisoformat(start["t"]).replace(
            hour=refresh, minute=0)
        start["t"] = (t + TD(minutes=rng.choice(
            [0, 0, 3, 10, 59, 130]))).isoformat()
    elif rng.random() < .6:
        # shortly before the profiles of the next day are used
        t = datetime.datetime.fromisoformat(start["t"]).replace(
            hour=refresh, minute=0)
        if rng.random() < .7:
            # which is of another type
            t += TD(days=(rng.choice([5, 0]) - t.weekday()) % 7)
        start["t"] = (t - TD(minutes=rng.choice([1, 5, 15]))).isoformat()
        k = rng.choice([30, 90])
    apps = []
    acts = ["level", "active_occupancy", "cooking", "self_washing", "laundry"]
    # a few times many appliances are of the same types
    many = rng.sample(TYPES, 2) if rng.random() < .12 else None
    for j in range(rng.choice([4, 8, 12] if many else
                              [1, 1, 3, 3, 6, 6, 14])):
        act = rng.choice(acts)
        water = act == "self_washing"
        apps.append({
            "type": rng.choice(many) if many else rng.choice(TYPES)
            if rng.random() < .3 else "kind%d" % j,
            "own": rng.choice([1.0, 1.0, .6, 0.0]), "act": act,
            "inactive": act != "level" and rng.random() < .5,
            "elec": float(rng.randrange(5, 3000)),
            "flow": rng.choice([2.0, 4.0, 6.5, 10.0]) if water or
            rng.random() < .2 else 0.0, "water": water,
            "lam": rng.choice([.5, 3.0, 10.0, 40.0]),
            "dur": rng.choice([1, 1, 2, 3, 5, 8, 30])
            + (.5 if rng.random() < .1 else 0),
            "delay": rng.choice([0, 0, 1, 2, 4, 20]),
            "standby": rng.choice([0, 1, 7]),
            "prob": rng.choice([.02, .1, .4, 1.0]),
            "loads": rng.choice([0, 0, 0, 1, 3])})
    seen = {}
    for a in apps:      # appliances of one type share their recorded cycles
        first = seen.setdefault(a["type"], a)
        a["loads"] = first["loads"]
        if first is not a:
            a["act"], a["water"] = first["act"], first["water"]
            a["inactive"] &= a["act"] != "level"
            if a["water"] and not a["flow"]:
                a["flow"] = 4.0
    for a in apps:
        if a["water"]:
            a["loads"] = 0
            a["dur"] = int(a["dur"])
    return {"apps": apps, "res": [rng.choice([1, 2, 3, 5])
                                  for _ in range(n_sub)],
            "counts": [(3000 // n_sub) if stats else rng.choice([1, 1, 2, 3])
                       for _ in range(n_sub)],
            "stats": stats, "salt": rng.randrange(10 ** 6),
            "start": start, "refresh": refresh,
            "equip": rng.choice(["subgroup", "basic", "all", "set_defined"]),
            "own": {t: rng.choice([0, 0, .5, 1, 1]) for t in rng.sample(
                [x + s for x in TYPES + ["kind%d" % j for j in range(6)]
                 for s in ("", "", "_2", "_3")], 12)} if not many else {
                t + s: rng.choice([0, 0, .5, 1, 1]) for t in many
                for s in ("", "_2", "_3", "_4") if rng.random() < .8},
            "profiles": rng.choice(["nothing", "uniform", "only_always_on",
                                    "only_switched_on"]),
            "use": rng.choice([.05, .3, 1.0]), "warm": rng.choice([0, 1]),
            "leave": rng.choice([0, .05, .3]), "block": rng.choice(
                [1, 3, 10, 45]), "k": rng.choice([2, 40]) if stats else
            k or rng.choice([3, 30, 90, 90, 200, 300]),
            "rate": 0 if stats else rng.choice([0, 0, .02, .2])}


def shrinks(case):
    from sim.core import generic_shrinks
    for c in generic_shrinks(case, SHRINK):
        if c["apps"] and c["counts"] and c["k"] > 0 and len(
                c["counts"]) == len(c["res"]) and all(
                x > 0 for x in c["counts"]):
            yield c


class Data(F.FakeAppliances):
    def __init__(self, case):
        self.case = case
        rows = []
        for j, a in enumerate(case["apps"]):
            rows.append({
                "name": "app_%d" % j, "type": a["type"],
                "equipped_prob": a["own"], "related_activity": a["act"],
                "inactive_switch_off": a["inactive"],
                "mean_elec_consumption": a["elec"],
                "mean_water_consumption": a["flow"],
                "uses_water": a["water"], "mean_duration": float(a["dur"]),
                "after_cycle_delay": a["delay"],
                "standby_consumption": a["standby"],
                "poisson_sampling_lambda_liters":
                    a["lam"] if a["water"] else 0.0,
                "switch_on_prob_crest": a["prob"],
                "mean_power_factor": 1.0, "heat_gains_ratio": 1.0,
                "target_cycle_year": 100.0})
        super().__init__(case["salt"], rows,
                         refresh=datetime.time(case["refresh"]),
                         intensity=case["use"])

    def load_appliance_ownership_dict(self, subgroup):
        return dict(self.case["own"])

    def load_activity_probability_profiles(self, subgroup):
        out = super().load_activity_probability_profiles(subgroup)
        if self.case["use"] == 1.0:
            for a in out:
                r = rs(self.salt, "ones", a, F.key_of(subgroup))
                out[a][:] = r.random_sample(out[a].shape) < .5
                out[a][:, 0] = a == "level"
        return out

    def profile_loads(self):
        out = {"switchedON": {}, "full": {}}
        for a in self.case["apps"]:
            if a["loads"]:
                r = rs(self.salt, "load", a["type"])
                kind = "full" if a["act"] == "level" else "switchedON"
                out[kind][a["type"]] = {"d%d" % j: np.round(
                    100 + 900 * r.random_sample(r.randint(1, 12)))
                    for j in range(a["loads"])}
        return out


def parent(kind, known):
    while kind not in known:
        if "_" not in kind:
            return None
        kind = kind.split("_", 1)[1]
    return kind


def ownership(case):
    """The probability that a household has each appliance."""
    out, seen = [], {}
    for j, a in enumerate(case["apps"]):
        if case["equip"] == "all":
            out.append(1.0)
        elif case["equip"] == "basic":
            out.append(a["own"])
        elif case["equip"] == "subgroup":
            t = parent(a["type"], case["own"])
            if t is None:
                out.append(a["own"])
                continue
            seen[t] = seen.get(t, 0) + 1
            key = t if seen[t] == 1 else "%s_%d" % (t, seen[t])
            out.append(float(case["own"].get(key, 0.0)))
    return np.array(out)


def execute(case, ctx):
    from demod.simulators.appliance_simulators import (
        OccupancyApplianceSimulator)
    ctx.real.add("OccupancyApplianceSimulator")
    data = Data(case)
    subs = [{"n_residents": r} for r in case["res"]]
    n = sum(case["counts"])
    group = np.repeat(np.arange(len(subs)), case["counts"])
    res = np.repeat(case["res"], case["counts"])
    start = simenv.start_of(case["start"])
    kw, sets = {}, None
    if case["equip"] == "set_defined":
        r = rs(case["salt"], "sets")
        sets = [[row["name"] for row in data.rows if r.random_sample() < .6]
                + ["nothing"] for _ in subs]
        kw["equipped_set_defined"] = sets
    r = rs(case["salt"], "occ")
    py = random.Random(case["seed"])
    with Rng(ctx, case["rate"], case["seed"]):
        np.random.seed(case["seed"] % 2 ** 32)
        sim = OccupancyApplianceSimulator(
            [dict(s) for s in subs], list(case["counts"]), data=data,
            start_datetime=start, equipped_sampling_algo=case["equip"],
            real_profiles_algo=case["profiles"],
            initial_active_occupancy=np.full(n, case["warm"]), **kw)
        watch = Watch(case, ctx, sim, data, group, sets)
        active = np.zeros(n, dtype=int)
        now = start
        watch.view(0)
        for k in range(case["k"]):
            if k % case["block"] == 0:
                active = np.minimum(r.randint(0, 6, size=n), res)
                if case["stats"]:
                    active = np.maximum(active, 1)
            if case["leave"] and r.random_sample() < case["leave"]:
                hh = r.random_sample(n) < .5
                if (watch.on[hh].any(axis=1) & (active[hh] > 0)).any():
                    ctx.fault("everyone leaves while appliances run")
                active = np.where(hh, 0, active)
            given = active.astype(float) if case["salt"] % 3 == 0 else \
                active.copy()
            sim.step(active_occupancy=given)
            watch.step(now, active, k)
            watch.view(k + 1)
            now = now + TD(minutes=1)
            if py.random() < .1:
                ctx.ev(k, simenv.digest(watch.on))
    ctx.ev(simenv.digest(watch.on))
    watch.close()
    ctx.sim_seconds += 60 * case["k"]


class Watch:
    """Follows each appliance."""

    def __init__(self, case, ctx, sim, data, group, sets):
        self.case, self.ctx, self.sim, self.data = case, ctx, sim, data
        self.group = group
        self.apps = case["apps"]
        self.n, self.m = len(group), len(self.apps)
        self.owned = np.array(sim.available_appliances)
        own = ownership(case) if sets is None else None
        names = [row["name"] for row in data.rows]
        for j in range(self.m):
            got = self.owned[:, j]
            if sets is not None:
                want = np.array([names[j] in sets[g] for g in group])
                ctx.check(equal(got, want), "ownership", "%s is owned by %s "
                          "with the sets %s" % (names[j], show(got), sets))
            elif own[j] in (0.0, 1.0):
                ctx.check(bool((got == own[j]).all()), "ownership", "%s (%s) "
                          "of ownership %s is owned by %s" % (
                              names[j], self.apps[j]["type"], own[j],
                              show(got)))
            elif case["stats"]:
                ctx.check(near(got.sum(), self.n, own[j]), "ownership rate",
                          "%s of ownership %s is owned by %d of %d" % (
                              names[j], own[j], got.sum(), self.n))
        loads = data.profile_loads()
        self.cycles = []
        for a in self.apps:
            kind = "full" if a["act"] == "level" else "switchedON"
            use = case["profiles"] == "uniform" or case["profiles"] == (
                "only_always_on" if kind == "full" else "only_switched_on")
            c = loads[kind].get(a["type"]) if use else None
            self.cycles.append(None if c is None else list(c.values()))
        shape = (self.n, self.m)
        self.on = np.zeros(shape, dtype=bool)
        self.run = np.zeros(shape, dtype=int)      # views since the start
        self.off = np.zeros(shape, dtype=int)      # views since the end
        self.sure = np.zeros(shape, dtype=bool)    # the start was seen
        self.rest = np.zeros(shape, dtype=bool)    # the end was seen
        self.cut = np.zeros(shape, dtype=bool)     # ended by a departure
        self.volume = np.zeros(shape)
        self.traces = {}
        self.assigned = {}
        self.volumes = [[] for _ in self.apps]
        self.tried = {}
        self.chance = None

    def probability(self, now, active):
        c = self.case
        day = now - TD(hours=c["refresh"])
        slot = (day.hour * 60 + day.minute) // 10
        out = np.zeros((self.n, self.m))
        for g, r in enumerate(c["res"]):
            sub = {"n_residents": r, "weekday": [1, 2, 3, 4, 5]
                   if day.isoweekday() <= 5 else [6, 7]}
            prof = self.data.load_activity_probability_profiles(sub)
            rows = np.where(self.group == g)[0]
            for j, a in enumerate(self.apps):
                out[rows, j] = a["prob"] * prof[a["act"]][slot][active[rows]]
        return out * self.owned

    def step(self, now, active, k):
        self.chance = self.probability(now, active)
        self.active = active
        self.now = now

    def tell(self, h, j):
        a = self.apps[j]
        return "appliance %d (%s, %s%s) of household %d" % (
            j, a["type"], a["act"], ", recorded cycles" if self.cycles[j]
            else "", h)

    def view(self, k):
        ctx, sim = self.ctx, self.sim
        on = np.array(sim.get_current_usage())
        power = np.array(sim.get_current_power_consumptions())
        water = np.array(sim.get_current_water_consumptions())
        may = np.array(sim.get_mask_available_appliances())
        ctx.check(on.shape == (self.n, self.m), "shape", "usage of shape %s"
                  % (on.shape,))
        ctx.check(not (on & ~self.owned).any(), "not owned", "after %d steps "
                  "appliances are used which the household does not own" % k)
        before, self.on = self.on, on
        for j, a in enumerate(self.apps):
            self.column(k, j, a, before[:, j], on[:, j], power[:, j],
                        water[:, j], may[:, j])
        tot = power.sum(axis=1)
        for name in ("get_power_demand", "get_energy_consumption",
                     "get_thermal_gains"):
            v = getattr(sim, name)()
            ctx.check(equal(np.asarray(v, dtype=float), tot, 1e-9), "total",
                      "%s gives %s, but the appliances consume %s" % (
                          name, show(v), show(tot)))
        v = sim.get_dhw_heating_demand()
        ctx.check(equal(np.asarray(v, dtype=float), water.sum(axis=1) * 70.,
                        1e-9), "total", "the hot water demand is %s for %s "
                  "l/min" % (show(v), show(water.sum(axis=1))))

    def column(self, k, j, a, was, on, power, water, may):
        ctx = self.ctx
        self.k = k
        owned = self.owned[:, j]
        cycles = self.cycles[j]
        exact = float(a["dur"]).is_integer() and not a["water"] or \
            cycles is not None
        slack = 0 if exact else 1
        first = k == 0
        rest = max(a["delay"], 1)
        if first:
            self.run[:, j] = np.where(on, 1, 0)
            self.off[:, j] = np.where(on, 0, 1)
        else:
            p = self.chance[:, j]
            started = on & ~was
            gone = np.zeros_like(on)
            if a["inactive"]:
                gone = self.active == 0
                bad = on & gone
                ctx.check(not bad.any(), "inactive", "%s is on at %s although "
                          "nobody is active" % (self.tell(
                              int(np.argmax(bad)), j), self.now))
            bad = started & (p <= 0)
            ctx.check(not bad.any(), "impossible start", "%s is switched on "
                      "at %s with %d active occupants, which has the "
                      "probability 0" % (self.tell(int(np.argmax(bad)), j),
                                         self.now, self.active[
                                             int(np.argmax(bad))]))
            early = started & self.rest[:, j] & (
                self.off[:, j] < max(1, rest - slack))
            ctx.check(not early.any(), "delay", "%s is switched on again "
                      "after %d steps instead of %d" % (
                          self.tell(int(np.argmax(early)), j),
                          self.off[int(np.argmax(early)), j], rest))
            can = owned & ~was & (self.off[:, j] >= rest) & ~gone
            if a["water"]:
                can = self.may[:, j] & ~gone
            if not a["water"]:
                late = can & (p >= 1) & ~on
                ctx.check(not late.any(), "certain start", "%s stays off at "
                          "%s with %d active occupants, which has the "
                          "probability 1" % (
                              self.tell(int(np.argmax(late)), j), self.now,
                              self.active[int(np.argmax(late))]))
            if self.case["stats"] and not self.case["rate"]:
                q = p * (1 - math.exp(-a["lam"])) if a["water"] else p
                for x in np.unique(q[can]):
                    m = can & (q == x)
                    t = self.tried.setdefault((j, float(x)), [0, 0])
                    t[0] += int(on[m].sum())
                    t[1] += int(m.sum())
            stopped = was & ~on
            self.check_end(j, a, was, on, stopped, gone, cycles)
            self.sure[:, j] = np.where(started, True, self.sure[:, j])
            self.rest[:, j] = np.where(stopped, True, self.rest[:, j])
            self.run[:, j] = np.where(started, 1, np.where(
                on, self.run[:, j] + 1, self.run[:, j]))
            self.off[:, j] = np.where(stopped, 1, np.where(
                on, 0, self.off[:, j] + 1))
            self.volume[:, j] = np.where(started, 0.0, self.volume[:, j])
            for h in np.where(started)[0]:
                self.traces[h, j] = []
            if started.any():
                ctx.cover(a["act"], a["delay"], a["dur"], bool(cycles),
                          a["water"], a["inactive"], "on")
            if (stopped & gone).any():
                ctx.cover(a["act"], a["delay"], a["dur"], bool(cycles),
                          a["water"], "left")
        # available again
        # (a use of no litre at all delays the next one, too)
        yes = owned & ~on & (self.off[:, j] >= rest) & (not a["water"])
        no = ~owned | on | (self.rest[:, j] & (
            self.off[:, j] < rest - slack))
        ctx.check(not (yes & ~may).any() and not (no & may).any(),
                  "available", "after %d steps the available households of "
                  "appliance %d are %s; owned %s, off for %s steps" % (
                      k, j, show(may), show(owned), show(self.off[:, j])))
        # power
        idle = a["standby"] * (owned & ~on)
        if cycles is None:
            want = idle + a["elec"] * on
            ctx.check(equal(power, want.astype(float), 1e-9), "power",
                      "appliance %d consumes %s instead of %s" % (
                          j, show(power), show(want)))
        else:
            ctx.check(equal(np.where(on, 0, power), idle.astype(float),
                            1e-9), "power", "appliance %d consumes %s in "
                      "standby" % (j, show(power)))
            for h in np.where(on)[0]:
                if (h, j) in self.traces:
                    self.trace(h, j, power[h])
        # water
        ok = (water == 0) | on
        ctx.check(bool(ok.all()), "water", "appliance %d uses water while it "
                  "is off" % j)
        ok = ~on | (water <= a["flow"] + 1e-9) & (
            (water > 0) | (a["flow"] == 0))
        ctx.check(bool(ok.all()), "water", "appliance %d has a flow of %s "
                  "instead of %s" % (j, show(water), a["flow"]))
        if not first:
            # only the last step of a use may be a part of a step
            part = was & on & (self.last[:, j] < a["flow"] - 1e-9)
            ctx.check(not part.any(), "water part", "%s uses water after a "
                      "last part of a step" % self.tell(
                          int(np.argmax(part)), j))
        else:
            if j == 0:
                self.last = np.zeros((self.n, self.m))
                self.may = np.zeros((self.n, self.m), dtype=bool)
        self.last[:, j] = water
        self.may[:, j] = may
        self.volume[:, j] += water

    def trace(self, h, j, x):
        t = self.traces[h, j]
        t.append(float(x))
        ids = self.assigned.get((h, j))
        if ids is None:
            ids = set(range(len(self.cycles[j])))
        ids = {i for i in ids if len(self.cycles[j][i]) >= len(t)
               and equal(self.cycles[j][i][:len(t)], np.array(t), 1e-9)}
        self.ctx.check(ids, "cycle", "%s consumes %s, which is none of its "
                       "recorded cycles %s" % (self.tell(h, j), t, show([
                           list(c) for c in self.cycles[j]])))
        self.assigned[h, j] = ids

    def check_end(self, j, a, was, on, stopped, gone, cycles):
        """The uses that end, or should have."""
        ctx = self.ctx
        run, sure = self.run[:, j], self.sure[:, j]
        if cycles is not None:
            for h in np.where(stopped & sure & ~gone)[0]:
                ok = any(len(cycles[i]) == run[h]
                         for i in self.assigned[h, j])
                ctx.check(ok, "duration", "%s stops after %d steps of its "
                          "cycles of %s" % (self.tell(h, j), run[h],
                                            [len(c) for c in cycles]))
            top = max(len(c) for c in cycles)
            ctx.check(not (on & was & (run >= top)).any(), "duration",
                      "appliance %d runs longer than its cycles" % j)
            return
        if a["water"]:
            for h in np.where(stopped & sure & ~gone)[0]:
                v = self.volume[h, j]
                ctx.check(abs(v - round(v)) < 1e-6 and v > .5, "volume",
                          "%s used %s litres" % (self.tell(h, j), v))
                self.volumes[j].append((self.k - run[h], v))
            return
        want = math.ceil(a["dur"])
        bad = stopped & sure & ~gone & (run != want)
        ctx.check(not bad.any(), "duration", "%s runs for %d steps instead of "
                  "%d" % (self.tell(int(np.argmax(bad)), j),
                          run[int(np.argmax(bad))], want))
        bad = on & was & (run >= want)
        ctx.check(not bad.any(), "duration", "%s runs for more than %d steps"
                  % (self.tell(int(np.argmax(bad)), j), want))

    def close(self):
        if not self.case["stats"]:
            return
        self.ctx.probe("frequency tests")
        for (j, q), (got, n) in self.tried.items():
            self.ctx.check(near(got, n, q), "frequency", "appliance %d is "
                           "switched on %d times of %d with the probability "
                           "%s" % (j, got, n, q))
        for j, c in enumerate(self.cycles):
            ids = [x for (_, i), x in self.assigned.items() if i == j]
            if not c or len(c) < 2 or any(len(x) != 1 for x in ids):
                continue
            self.ctx.probe("choices of cycles")
            for k in range(len(c)):
                got = sum(k in x for x in ids)
                self.ctx.check(near(got, len(ids), 1 / len(c)), "choice",
                               "%d of %d households have cycle %d of the %d "
                               "of appliance %d" % (got, len(ids), k, len(c),
                                                    j))
        if self.case["leave"]:
            return
        for j, a in enumerate(self.apps):
            if not a["water"]:
                continue
            # uses which ended surely before the end of the simulation
            lam = a["lam"]
            last = self.case["k"] - 2 - (lam + 9 * lam ** .5 + 9) / a["flow"]
            v = [x for k, x in self.volumes[j] if k <= last]
            if len(v) > 100:
                mean = lam / (1 - math.exp(-lam))
                self.ctx.probe("volume tests")
                self.ctx.check(
                    abs(np.mean(v) - mean) < 6.5 * (lam / len(v)) ** .5 + .01,
                    "volumes", "%d uses of appliance %d take %.3f litres "
                    "instead of %.3f" % (len(v), j, np.mean(v), mean))
