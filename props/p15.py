"""P15: appliances follow the activities of the residents."""
import math
import random

import numpy as np

from props.p12 import near
from props.p14 import TYPES, parent
from sim import fakedata as F
from sim import simenv
from sim.simenv import Rng, TD, equal, random_start, rs, show

shared, populate, prepare = simenv.shared, simenv.populate, simenv.prepare
CASES = {"quick": 650, "thorough": 60000}
QUICK_S, THOROUGH_S = 100, 1800
CPU_LIMIT = 100
RULE = ("A case simulates seeded appliances under seeded activities which "
        "start, stop and flicker, with extreme random draws as faults, and "
        "follows each appliance of each household; non-trivial if the "
        "pattern of uses is new.")
STATES = "distinct (simulator, appliance features, event) tuples"
ASSUMPTIONS = ["the random numbers come from numpy.random",
               "frequencies are compared up to 6.5 standard deviations"]
SHRINK = ["k", "rate", "n", "apps"]
ACTS = ["cooking", "laundry", "self_washing", "watching_tv", "cleaning"]
ALWAYS = ["level", "constant"]


def generate(rng, i, tier):
    prob = rng.random() < .6
    stats = prob and rng.random() < .15
    apps = []
    # a few times many appliances are of the same types
    many = rng.sample(TYPES, 2) if rng.random() < .15 else None
    for j in range(rng.choice([4, 7, 10] if many else [1, 1, 2, 2, 4, 4, 7, 14])):
        act = rng.choice(ACTS + (["unknown"] if rng.random() < .2 else [])
                         + (ALWAYS if not prob else []))
        apps.append({
            "type": rng.choice(many) if many else rng.choice(TYPES)
            if rng.random() < .2 else "kind%d" % j,
            "act": act, "water": act == "self_washing" and prob,
            "own": rng.choice([1.0, 1.0, .6, 0.0]),
            "inactive": rng.random() < .6,
            "elec": float(rng.randrange(5, 3000)),
            "flow": rng.choice([0.0, 0.0, 2.0, 6.5]),
            "lam": rng.choice([.5, 3.0, 5.0, 20.0]),
            "dur": rng.choice([1, 1, 2, 3, 5, 8, 30]),
            "delay": rng.choice([0, 0, 3]), "standby": rng.choice([0, 1, 7]),
            "target": rng.choice([0, 100, 3000, 3 * 10 ** 6, 10 ** 7]),
            "usual": rng.choice([0, 500, 10 ** 7]),
            "after": "nan", "follows": "nan",
            "prob": rng.random() < (.9 if prob else .1),
            "loads": rng.choice([0, 0, 0, 1, 3])})
    seen = {}
    for a in apps:
        first = seen.setdefault(a["type"], a)
        for x in ("loads", "act", "water", "target", "prob"):
            a[x] = first[x]
        if a["water"]:
            a["loads"] = 0
            a["flow"] = a["flow"] or 2.0
    if prob:
        for a in apps[1:]:
            if a["water"]:
                continue
            if rng.random() < .25:
                a["after"] = rng.choice(ACTS)
            elif rng.random() < .25:
                t = rng.choice([x["type"] for x in apps])
                if t != a["type"] and not [x for x in apps if x["type"] == t
                                           and (x["water"] or not x["prob"]
                                                or x["follows"] != "nan")]:
                    a["follows"] = t
    if stats and rng.random() < .5 and apps[-1] is not apps[0] and not any(
            x["type"] == apps[-1]["type"] for x in apps[:-1]):
        # an appliance, or several of a type, and one that follows them
        first = dict(apps[0], water=False, act=rng.choice(ACTS), prob=True,
                     target=rng.choice([3 * 10 ** 6, 10 ** 7]), own=1.0,
                     after="nan", follows="nan")
        rest = [a for a in apps[1:-1] if a["type"] != first["type"]
                and a["follows"] != first["type"]]
        apps = [dict(first) for _ in range(rng.choice([1, 2, 2, 3]))] + \
            rest + [dict(apps[-1], water=False, prob=True, own=1.0,
                         target=rng.choice([10 ** 6, 3 * 10 ** 6]),
                         after="nan", follows=first["type"])]
    if stats and any(a["follows"] != "nan" for a in apps):
        # the ends of uses of one step are known from what is shown
        for a in apps:
            if any(b["follows"] == a["type"] for b in apps):
                a["dur"], a["loads"] = 1, 0
    n = 3000 if stats else rng.choice([1, 2, 3, 6])
    subs = rng.choice([None, None, [n], [1, n - 1] if n > 1 else [n]])
    crowd = not stats and rng.random() < .05    # enough to count the cycles
    if crowd:
        n, subs = 60, None
        for a in apps[:3]:
            if not a["water"]:
                for b in apps:
                    if b["type"] == a["type"]:
                        b["loads"] = 3
    out = {"prob": prob, "stats": stats, "apps": apps, "n": n, "subs": subs,
            "res": [rng.choice([None, 1, 2, 4]) for _ in subs or []],
            "missing": rng.random() < .1, "plain": rng.random() < .1,
            "salt": rng.randrange(10 ** 6), "twice": rng.random() < .3,
            "start": random_start(rng, 60, True, wide=True),
            "step": rng.choice([60, 60, 60, 600, 10]),
            "equip": rng.choice(["basic", "all", "subgroup", "set_defined"]),
            "own": {t: rng.choice([0, 0, .5, 1, 1]) for t in rng.sample(
                [x + s for x in TYPES + ["kind%d" % j for j in range(6)]
                 for s in ("", "", "_2", "_3")], 12)} if not many else {
                t + s: rng.choice([0, 0, .5, 1, 1]) for t in many
                for s in ("", "_2", "_3", "_4") if rng.random() < .8},
            "lack": rng.choice([0, 0, .3]),
            "profiles": rng.choice(["nothing", "uniform", "only_always_on",
                                    "only_switched_on"]),
            "busy": rng.choice([.1, .4, .8]), "block": rng.choice(
                [1, 2, 5, 20]), "flicker": rng.choice([0, 0, .1, .4]),
            "k": rng.choice([1, 3, 8]) if stats else rng.choice(
                [2, 2, 10, 10, 40, 40, 120, 250]),
            "rate": 0 if stats else rng.choice([0, 0, .02, .2])}
    if crowd:
        out.update(equip="all", profiles="uniform", k=min(out["k"], 40),
                   rate=0)
    return out


def shrinks(case):
    from sim.core import generic_shrinks
    for c in generic_shrinks(case, SHRINK):
        if not c["apps"] or c["n"] < 1 or c["k"] < 1:
            continue
        if c["n"] != case["n"] and c["subs"]:
            continue
        yield c


class Data(F.FakeAppliances):
    def __init__(self, case):
        self.case = case
        rows = []
        for j, a in enumerate(case["apps"]):
            rows.append({
                "name": "app_%d" % j, "type": a["type"],
                "equipped_prob": a["own"], "related_activity": a["act"],
                "inactive_switch_off": a["inactive"],
                "mean_elec_consumption": a["elec"],
                "mean_water_consumption": a["flow"],
                "uses_water": a["water"], "mean_duration": float(a["dur"]),
                "after_cycle_delay": a["delay"],
                "standby_consumption": a["standby"],
                "poisson_sampling_lambda_liters":
                    a["lam"] if a["water"] else 0.0,
                "probabilistic": a["prob"],
                "previous_activity": a["after"],
                "previous_appliance_type": a["follows"],
                "target_cycle_year": float(a["usual"])})
            if case["plain"]:
                for x in ("previous_activity", "previous_appliance_type"):
                    del rows[-1][x]
        super().__init__(case["salt"], rows)
        self.step_size = TD(seconds=case["step"])

    def load_yearly_target_switchons(self, subgroup):
        out = {}
        r = rs(self.salt, "target", F.key_of(subgroup))
        for t, a in {a["type"]: a for a in self.case["apps"]}.items():
            if rs(self.salt, "lack", t).random_sample() < self.case["lack"]:
                continue
            out[t] = float(a["target"])
            if self.case["twice"]:
                for x in ("_2", "_3"):
                    out[t + x] = float(r.choice([0, 700, 10 ** 7]))
        return out

    def load_appliance_ownership_dict(self, subgroup):
        return dict(self.case["own"])

    def load_activity_probabilities(self, subgroup):
        out = {}
        for a in ACTS:
            r = rs(self.salt, "actp", a, F.key_of(subgroup))
            out[a] = .02 + .2 * r.random_sample(144)
        if self.case["missing"]:
            out.pop("cooking")
        return out

    def load_daily_activity_starts(self, subgroup):
        out = {}
        for a in ACTS:
            r = rs(self.salt, "starts", a, F.key_of(subgroup))
            p = .1 + r.random_sample(4)
            out[a] = p / p.sum()
        return out

    def profile_loads(self):
        out = {"switchedON": {}, "full": {}}
        for a in self.case["apps"]:
            if a["loads"]:
                r = rs(self.salt, "load", a["type"])
                kind = "full" if a["act"] in ALWAYS else "switchedON"
                low = 2 if kind == "full" else 1
                out[kind][a["type"]] = {"d%d" % j: np.round(
                    100 + 900 * r.random_sample(r.randint(low, 12)))
                    for j in range(a["loads"])}
        return out


def activities(case, k):
    """The number of people doing each activity at the k-th step."""
    n, out = case["n"], {}
    for a in ACTS:
        r = rs(case["salt"], "act", a, k // case["block"])
        v = (r.random_sample(n) < case["busy"]) * r.randint(1, 3, n)
        if case["flicker"]:
            f = rs(case["salt"], "flicker", a, k)
            v = np.where(f.random_sample(n) < case["flicker"], 0, v)
        out[a] = v
    return out


def nth(apps, known, default):
    """The entry of each appliance, the second of a type having its own."""
    seen, out = {}, []
    for a in apps:
        t = parent(a["type"], known)
        if t is None:
            out.append(float(a[default]))
            continue
        seen[t] = seen.get(t, 0) + 1
        out.append(known.get(t if seen[t] == 1 else "%s_%d" % (t, seen[t]),
                             0.0))
    return np.array(out)


def chances(case, data, apps, subgroup):
    """The probability of a switch-on for which the yearly target is met."""
    target = nth(apps, data.load_yearly_target_switchons(subgroup), "usual")
    act_p = data.load_activity_probabilities(subgroup)
    starts = data.load_daily_activity_starts(subgroup)
    out = np.zeros(len(apps))
    for j, a in enumerate(apps):
        if a["follows"] != "nan" and not case["plain"]:
            before = sum(target[i] for i, b in enumerate(apps)
                         if b["type"] == a["follows"])
            if any(b["type"] == a["follows"] for b in apps):
                out[j] = target[j] / before if before else math.nan
            continue
        if a["after"] != "nan" and not case["plain"]:
            if a["after"] in act_p:
                s = starts[a["after"]]
                out[j] = target[j] / (
                    365.25 * sum(i * x for i, x in enumerate(s))
                    * subgroup.get("n_residents", 2.3))
            continue
        if a["act"] not in act_p:
            continue
        steps = 365.25 * 86400 / case["step"] * act_p[a["act"]].mean()
        out[j] = target[j] / max(1.0, steps - a["dur"] * target[j])
    return out


def execute(case, ctx):
    from demod.simulators import appliance_simulators as A
    data = Data(case)
    n = case["n"]
    cls = A.ProbabiliticActivityAppliancesSimulator if case["prob"] else \
        A.ActivityApplianceSimulator
    ctx.real.add(cls.__name__)
    kw, group, subs = {}, np.zeros(n, dtype=int), [{}]
    if case["subs"]:
        subs = [{} if r is None else {"n_residents": r} for r in case["res"]]
        kw = {"subgroups_list": [dict(s) for s in subs],
              "n_households_list": list(case["subs"])}
        group = np.repeat(np.arange(len(subs)), case["subs"])
    sets = None
    if case["equip"] == "set_defined":
        r = rs(case["salt"], "sets")
        sets = [[row["name"] for row in data.rows if r.random_sample() < .6]
                + ["nothing"] for _ in subs]
        kw["equipped_set_defined"] = sets
    acts = activities(case, 0)
    with Rng(ctx, case["rate"], case["seed"]):
        np.random.seed(case["seed"] % 2 ** 32)
        sim = cls(n, {a: v.copy() for a, v in acts.items()}, data=data,
                  start_datetime=simenv.start_of(case["start"]),
                  step_size=data.step_size,
                  equipped_sampling_algo=case["equip"],
                  real_profiles_algo=case["profiles"], **kw)
        apps = [a for a in case["apps"] if a["act"] in ACTS + ALWAYS
                and a["prob"] == case["prob"]]
        names = ["app_%d" % j for j, a in enumerate(case["apps"])
                 if a in apps and a["act"] in ACTS + ALWAYS]
        got = [str(x) for x in sim.appliances["name"]]
        ctx.check(got == names and sim.appliances["number"] == len(names),
                  "appliances", "%s simulates %s instead of %s" % (
                      cls.__name__, got, names))
        if not apps:
            return
        loads = data.profile_loads()
        cycles = []
        for a in apps:
            kind = "full" if a["act"] in ALWAYS else "switchedON"
            use = case["profiles"] == "uniform" or case["profiles"] == (
                "only_always_on" if kind == "full" else "only_switched_on")
            c = loads[kind].get(a["type"]) if use else None
            cycles.append(None if c is None else list(c.values()))
        owned = np.array(sim.available_appliances)
        own = nth(apps, case["own"], "own") if case["equip"] == "subgroup" \
            else [a["own"] for a in apps]
        for j, a in enumerate(apps):
            if sets:
                want = np.array([names[j] in sets[g] for g in group])
                ctx.check(equal(owned[:, j], want), "ownership", "%s is "
                          "owned by %s with the sets %s" % (
                              names[j], show(owned[:, j]), sets))
                continue
            p = 1.0 if case["equip"] == "all" else own[j]
            if p in (0.0, 1.0):
                ctx.check(bool((owned[:, j] == p).all()), "ownership",
                          "ownership %s of the probability %s" % (
                              show(owned[:, j]), p))
        w = (Probable if case["prob"] else Active)(
            case, ctx, sim, apps, cycles, owned)
        if case["prob"]:
            w.p = np.array([chances(case, data, apps, subs[g])
                            for g in range(len(subs))])[group]
        w.start(acts)
        look = random.Random(case["seed"])
        common(case, ctx, sim, apps, cycles, owned)
        for k in range(case["k"]):
            new = activities(case, k + 1)
            if k % 7 == 3:      # the order of the activities is free
                new = dict(look.sample(sorted(new.items()), len(new)))
            stop = {a: (acts[a] > 0) & (new[a] == 0) for a in ACTS}
            if any(x.any() for x in stop.values()):
                ctx.fault("activity stops")
            sim.step({a: v.copy() for a, v in new.items()})
            w.step(acts, new, stop)
            on = common(case, ctx, sim, apps, cycles, owned)
            ctx.ev(k, simenv.digest(on))
            acts = new
        w.close()
    ctx.sim_seconds += case["step"] * case["k"]


def common(case, ctx, sim, apps, cycles, owned):
    """What holds for all kinds at every moment."""
    on = np.array(sim.get_current_usage())
    power = np.array(sim.get_current_power_consumptions())
    water = np.array(sim.get_current_water_consumptions())
    ctx.check(not (on & ~owned).any(), "not owned", "appliances are used "
              "which the household does not own")
    for j, a in enumerate(apps):
        idle = a["standby"] * (owned[:, j] & ~on[:, j])
        want = idle + a["elec"] * on[:, j]
        got = power[:, j]
        if cycles[j] is not None:
            got, want = np.where(on[:, j], 0, got), idle
        ctx.check(equal(got, want.astype(float), 1e-9), "power", "appliance "
                  "%d (%s) consumes %s instead of %s" % (
                      j, a["type"], show(got), show(want)))
        ctx.check(equal(water[:, j], a["flow"] * on[:, j], 1e-9), "water",
                  "appliance %d uses %s l/min instead of %s" % (
                      j, show(water[:, j]), a["flow"]))
    tot = power.sum(axis=1)
    for name in ("get_power_demand", "get_energy_consumption",
                 "get_thermal_gains"):
        v = np.asarray(getattr(sim, name)(), dtype=float)
        ctx.check(equal(v, tot, 1e-9), "total", "%s gives %s, but the "
                  "appliances consume %s" % (name, show(v), show(tot)))
    v = np.asarray(sim.get_dhw_heating_demand(), dtype=float)
    ctx.check(equal(v, water.sum(axis=1) * 70.0, 1e-9), "total",
              "the hot water demand is %s for %s l/min" % (
                  show(v), show(water.sum(axis=1))))
    return on


class Active:
    """Appliances that run as long as their activity."""

    def __init__(self, case, ctx, sim, apps, cycles, owned):
        self.case, self.ctx, self.sim = case, ctx, sim
        self.apps, self.cycles, self.owned = apps, cycles, owned
        self.n = case["n"]

    def start(self, acts):
        self.on = np.array([[a["act"] in ALWAYS or acts[a["act"]][h] > 0
                             for a in self.apps] for h in range(self.n)])
        self.at = {}        # possible (cycle, position)
        for j, c in enumerate(self.cycles):
            for h in range(self.n):
                if c is not None and self.owned[h, j]:
                    always = self.apps[j]["act"] in ALWAYS
                    self.at[h, j] = {(i, x) for i in range(len(c)) for x in (
                        range(len(c[i])) if always else [0])}
        self.compare("at the start")

    def step(self, old, new, stop):
        for j, a in enumerate(self.apps):
            if a["act"] in ALWAYS:
                continue
            v = new[a["act"]] > 0
            begin = v & (old[a["act"]] == 0)
            self.on[:, j] = v | (self.on[:, j] & (not a["inactive"]))
            for h in np.where(begin)[0]:
                if (h, j) in self.at:
                    self.at[h, j] = {(i, -1) for i, _ in self.at[h, j]}
            self.ctx.cover("activity", a["inactive"], bool(self.cycles[j]),
                           bool(begin.any()), bool(stop[a["act"]].any()))
        for (h, j), s in self.at.items():
            self.at[h, j] = {(i, (x + 1) % len(self.cycles[j][i]))
                             for i, x in s}
        self.compare("later")

    def compare(self, when):
        on = np.array(self.sim.get_current_usage())
        want = self.on & self.owned
        for j, a in enumerate(self.apps):
            self.ctx.check(equal(on[:, j], want[:, j]), "usage", "%s: "
                           "appliance %d (%s of %s, inactive_switch_off %s) "
                           "is used by %s instead of %s" % (
                               when, j, a["type"], a["act"], a["inactive"],
                               show(on[:, j]), show(want[:, j])))
        power = np.array(self.sim.get_current_power_consumptions())
        for (h, j), s in self.at.items():
            if not on[h, j]:
                continue
            c = self.cycles[j]
            left = {(i, x) for i, x in s if abs(
                c[i][x] - power[h, j]) < 1e-9}
            self.ctx.check(left, "cycle", "%s: appliance %d of household %d "
                           "consumes %s, which is not the next value of any "
                           "of its recorded cycles %s" % (
                               when, j, h, power[h, j],
                               [list(x) for x in c]))
            self.at[h, j] = left

    def close(self):
        if not self.case["rate"]:
            choices(self.ctx, self.at, self.cycles)


def choices(ctx, at, cycles):
    """Every recorded cycle is drawn as often as the others."""
    for n in {len(c) for c in cycles if c}:
        ids = []
        for j, c in enumerate(cycles):
            mine = [{i for i, _ in s} for (_, k), s in at.items() if k == j]
            mine = [s for s in mine if len(s) < n]
            if c and len(c) == n and all(len(s) == 1 for s in mine):
                ids += [min(s) for s in mine]
        if ids:
            ctx.probe("choices of cycles")
        for k in range(n):
            ctx.check(near(ids.count(k), len(ids), 1 / n), "choice",
                      "%d of %d appliances repeat cycle %d of %d" % (
                          ids.count(k), len(ids), k, n))


class Probable(Active):
    """Appliances that are switched on by chance during an activity."""

    def start(self, acts):
        self.on = np.array(self.sim.get_current_usage())
        self.tried, self.short, self.fresh = {}, {}, {}
        self.states = {}        # possible (cycle, steps left)
        self.length = [[a["dur"]] if c is None else [len(x) for x in c]
                       for a, c in zip(self.apps, self.cycles)]
        if not self.case["stats"]:
            for j, a in enumerate(self.apps):
                if a["water"]:
                    continue
                for h in np.where(self.owned[:, j])[0]:
                    self.states[h, j] = {(i, 0) for i in range(
                        len(self.length[j]))}
        self.ctx.check(not self.on.any(), "start", "appliances are used at "
                       "the start")

    def step(self, old, new, stop):
        on = np.array(self.sim.get_current_usage())
        power = np.array(self.sim.get_current_power_consumptions())
        plain = self.case["plain"]
        before, after = self.states, {}
        for j, a in enumerate(self.apps):
            act, p = a["act"], self.p[:, j]
            follows = a["follows"] if not plain else "nan"
            comes = a["after"] if not plain else "nan"
            if follows != "nan" and not any(
                    b["type"] == follows for b in self.apps):
                comes, follows, p = "never", "nan", p * 0
            was = self.on[:, j]
            now = on[:, j]
            if a["inactive"]:
                bad = now & stop[act] & (comes not in ACTS)
                self.ctx.check(not bad.any(), "inactive", "appliance %d is "
                               "on although %s has stopped" % (j, act))
            if a["water"] or self.case["stats"]:
                if follows != "nan":
                    self.followed(j, a, follows, p, was, now, stop[act])
                    continue
                may = stop[comes] if comes in ACTS else \
                    new[act] > 0 if comes == "nan" else \
                    np.zeros(self.n, dtype=bool)
                bad = now & ~was & (~may | (p <= 0))
                self.ctx.check(not bad.any(), "impossible start", "appliance "
                               "%d of %s is switched on with the probability "
                               "%s and %s people" % (j, act, show(p[bad]),
                                                     show(new[act][bad])))
                ok = may & ~was & self.owned[:, j]
                if comes in ACTS and a["inactive"] and comes != act:
                    ok &= ~stop[act]
                q = np.minimum(p, 1) * (
                    1 - math.exp(-a["lam"])) if a["water"] and \
                    not self.case["rate"] else p
                if a["water"] and self.case["stats"]:
                    # uses of a volume for which one step suffices
                    v = np.arange(1, int(a["flow"]) + 1)
                    one = sum(math.exp(-a["lam"]) * a["lam"] ** int(x)
                              / math.factorial(int(x)) for x in v) / (
                        1 - math.exp(-a["lam"]))
                    m = self.fresh.get(j, np.zeros(self.n, dtype=bool)) & ~(
                        stop[act] & a["inactive"])
                    again = np.where(may, np.nan_to_num(q), 0)
                    for x in np.unique(again[m]):
                        t = self.short.setdefault((j, float(
                            one * (1 - x))), [0, 0])
                        t[0] += int((~now & m & (again == x)).sum())
                        t[1] += int((m & (again == x)).sum())
                    self.fresh[j] = now & ~was
                if self.case["stats"]:
                    for x in np.unique(q[ok]):
                        m = ok & (q == x)
                        t = self.tried.setdefault((j, float(x)), [0, 0])
                        t[0] += int(now[m].sum())
                        t[1] += int(m.sum())
                continue
            for h in np.where(self.owned[:, j])[0]:
                s = before[h, j]
                out = set()
                for i, x in s:
                    out |= self.next(h, j, i, x, p[h], follows, comes, new,
                                     stop, before)
                left = {(i, x) for i, x in out if (x > 0) == bool(now[h])
                        and (not now[h] or self.cycles[j] is None or abs(
                            self.cycles[j][i][len(self.cycles[j][i]) - x]
                            - power[h, j]) < 1e-9)}
                self.ctx.check(left, "usage", "appliance %d (%s of %s, after "
                               "%s, following %s, probability %s, durations "
                               "%s) of household %d is %s with %s W; it had "
                               "%s steps left, %d people perform its "
                               "activity" % (
                                   j, a["type"], act, comes, follows, p[h],
                                   self.length[j], h,
                                   "on" if now[h] else "off", power[h, j],
                                   sorted({x for _, x in s}), new[act][h]))
                after[h, j] = left
                self.ctx.cover("probable", comes != "nan", follows != "nan",
                               bool(was[h]), bool(now[h]), a["inactive"],
                               bool(stop[act][h]), p[h] >= 1)
        self.states = after
        self.on = on

    def followed(self, j, a, follows, p, was, now, stop):
        """Counts the starts after a use of the appliance it follows."""
        before = [b for b, x in enumerate(self.apps) if x["type"] == follows]
        if any(self.apps[b]["dur"] != 1 or self.apps[b]["loads"]
               or self.apps[b]["water"] for b in before):
            return
        ends = self.on[:, before].sum(axis=1)
        bad = now & ~was & ((ends == 0) | ~(p > 0))
        self.ctx.check(not bad.any(), "impossible start", "appliance %d, "
                       "which follows %s, is switched on with the "
                       "probability %s after the end of %s uses" % (
                           j, follows, show(p[bad]), show(ends[bad])))
        ok = ~was & self.owned[:, j]
        if a["inactive"]:
            ok &= ~stop
        q = 1 - (1 - np.clip(np.nan_to_num(p), 0, 1)) ** ends
        for x in np.unique(q[ok]):
            m = ok & (q == x)
            t = self.tried.setdefault((j, float(x)), [0, 0])
            t[0] += int(now[m].sum())
            t[1] += int(m.sum())
            self.ctx.cover("follows", len(before), int(0 < x < 1))

    def next(self, h, j, i, x, p, follows, comes, new, stop, before):
        """The steps left that are possible after one step."""
        a, full = self.apps[j], self.length[j][i]
        x = x - 1 if x > 0 else 0
        out = {x}
        if math.isnan(p):
            p = 0

        def chance(must=True):
            if 0 in out and p > 0:
                out.add(full)
                if p >= 1 and must:
                    out.discard(0)
        if follows != "nan":
            ends = [before[h, b] for b in range(len(self.apps))
                    if self.apps[b]["type"] == follows
                    and self.owned[h, b]]
            if any(1 in {y for _, y in s} for s in ends):
                chance(any({y for _, y in s} == {1} for s in ends))
        for act in new:
            if act == a["act"] and a["inactive"] and stop[act][h]:
                out.clear()
                out.add(0)
            if act == comes and stop[act][h]:
                chance()
            if act == a["act"] and comes == "nan" and follows == "nan" \
                    and new[act][h] > 0:
                chance()
        return {(i, y) for y in out}

    def close(self):
        if not self.case["rate"]:
            choices(self.ctx, self.states, self.cycles)
        if self.tried:
            self.ctx.probe("frequency tests", len(self.tried))
        for (j, q), (got, n) in self.tried.items():
            self.ctx.check(near(got, n, q), "frequency", "appliance %d (%s) "
                           "is switched on %d times of %d with the "
                           "probability %s" % (j, self.apps[j]["act"], got, n,
                                               q))
        if self.short:
            self.ctx.probe("duration tests", len(self.short))
        for (j, q), (got, n) in self.short.items():
            self.ctx.check(near(got, n, q), "volume", "%d of %d uses of the "
                           "water appliance %d take one step, which has the "
                           "probability %s" % (got, n, j, q))
