"""P10: a population is exactly its groups, households and residents."""
import datetime
import random

import numpy as np

from props import p12
from sim import fakedata as F
from sim import simenv, zoo
from sim.simenv import Rng, TD, equal, show

shared, populate, prepare = simenv.shared, simenv.populate, simenv.prepare
CASES = {"quick": 1800, "thorough": 60000}
QUICK_S, THOROUGH_S = 100, 1500
CPU_LIMIT = 100
RULE = ("A case builds a population of seeded groups (user-defined "
        "simulators, nested or not, or residents whose data leaves one "
        "possible trajectory each), steps it, and reads it on a seeded "
        "schedule; non-trivial if the trajectory is new.")
STATES = "distinct (kind, groups, quantity) tuples"
ASSUMPTIONS = ["the random numbers come from numpy.random"]
SHRINK = ["k", "p.n", "groups"]


def generate(rng, i, tier):
    what = rng.choice(["generic", "generic", "individuals", "individuals",
                       "crest4", "sparse_multi", "sample"])
    k = rng.choice([0, 1, 2, 5, 20, 150])
    c = {"what": what, "k": k, "look": rng.choice([.2, .6, 1.0])}
    if what == "sample":
        n = rng.choice([1, 2, 3, 7, 20])
        c.update(groups=[rng.choice([0, 0, 1, 2, 5, 30]) for _ in range(n)],
                 n=rng.choice([1, 1, 2, 3, 10, 100, 1000, 20000]),
                 algo=rng.choice(["real_population", "monte_carlo", None]),
                 extreme=rng.choice([0, .1]))
        if not any(c["groups"]):
            c["groups"][-1] = 1
    elif what == "generic":
        def tree(depth):
            if depth and rng.random() < .35:
                return [tree(depth - 1) for _ in range(rng.choice([1, 2, 3]))]
            return rng.choice([1, 1, 1, 2, 2, 3, 6, 60])
        c.update(groups=[tree(2) for _ in range(rng.choice([1, 2, 3, 4]))],
                 k=min(k, 20), args=rng.choice(["", "a", "k", "ak"]),
                 warm=rng.choice([0, 0, 1, 3]), own=rng.random() < .4,
                 kind=rng.choice(["array", "list", "matrix"]),
                 fail=rng.random() < .15)
    else:
        p = zoo.KINDS[what].params(rng)
        p.update(real=False, mode="perm", pdf="certain", drop=False,
                 refresh={"individuals": 4, "crest4": 0,
                          "sparse_multi": 4}[what])
        if what == "individuals":
            p["kind"] = rng.choice(["individuals", "individuals_semi"])
            p["previous"] = rng.random() < .4
            p["subs"] = [list(rng.choice([
                (1, 1), (2, 2), (2, 3), (3, 3), (4, 3), (3, 4), (4, 4),
                (5, 4), (2, None), (4, None), (1, None), (1, 2), (6, 3)]))
                for _ in p["subs"]]
            if rng.random() < .2:
                p["counts"][rng.randrange(len(p["counts"]))] = 0
                p["counts"][rng.randrange(len(p["counts"]))] = 2
            p["age"] = [rng.choice([None, None, 1, 2]) for _ in p["subs"]]
            p["own"] = [rng.choice([None, None, None, 3, 4])
                        for _ in p["subs"]]
        elif what == "crest4":
            p["n"] = rng.choice([1, 2, 3, 10, 40])
            p["weights"] = [rng.choice([0, 1, 3]) for _ in range(2)] + [1]
            p["algo"] = rng.choice([None, "real_population", "monte_carlo"])
        else:
            p["res"] = [rng.choice([1, 1, 2, 2, 3, 3, 5, 6])
                        for _ in range(rng.choice([1, 2, 4]))]
            p["counts"] = [rng.choice([0, 1, 3]) for _ in p["res"][1:]] + [2]
        c["p"] = p
    return c


def shrinks(case):
    from sim.core import generic_shrinks
    for c in generic_shrinks(case, SHRINK):
        if c.get("groups", [1]) and c.get("p", {"n": 1})["n"] > 0 and \
                (case["what"] != "sample" or any(c["groups"])):
            yield c


def execute(case, ctx):
    {"generic": generic, "sample": sample, "individuals": individuals,
     "crest4": crest4, "sparse_multi": sparse}[case["what"]](case, ctx)


# ------------------------------------------------------- user-defined groups

def generic(case, ctx):
    from demod.simulators.base_simulators import (
        MultiSimulator, Simulator, cached_getter)
    ctx.real.add("MultiSimulator")
    serial = [0]
    width = 3 if case["kind"] == "matrix" else None

    class Part(Simulator):
        def __init__(self, n):
            super().__init__(n)
            self.first = serial[0] * 1000
            serial[0] += 1
            self.seen = []
            self.state = self.first + np.arange(n, dtype=float)
            self.subgroup = {"size": n, "odd": serial[0] % 2}
            self.n_residents = n
            self.initialize_starting_state()

        def step(self, a=None, b=None):
            self.state = self.state * .5 + 1
            if a is not None:
                self.state = self.state + vector(a)
            if b is not None:
                self.state = self.state + 7 * vector(b)
            super().step()

        @cached_getter
        def get_state(self):
            return np.array(self.state)

        def get_table(self):
            return np.stack([self.state, -self.state], axis=1)

        def get_own(self):
            return self.state + .25

    class Own(MultiSimulator):
        def get_own(self):
            return "own"

    def vector(x):
        x = np.asarray(x, dtype=float)
        return x if x.ndim == 1 else x.sum(axis=1)

    parts = []

    def grow(node, top=True):
        if isinstance(node, int):
            parts.append(Part(node))
            return parts[-1]
        multi = (Own if top and case["own"] else MultiSimulator)(
            [grow(x, False) for x in node])
        if not top:
            multi.initialize_starting_state()
        return multi

    sim = grow(case["groups"])
    n = sum(p.n_households for p in parts)
    ctx.check(sim.n_households == n, "size", "%d households in groups of %s"
              % (sim.n_households, case["groups"]))
    state = np.concatenate([p.state for p in parts])
    r = np.random.RandomState(case["seed"] % 2 ** 32)

    def given():
        shape = n if width is None else (n, width)
        out = r.randint(0, 100, size=shape)
        return out.tolist() if case["kind"] == "list" else out

    def advance(a, k):
        s = state * .5 + 1
        for x in a:
            s = s + vector(x)
        for x in k.values():
            s = s + 7 * vector(x)
        return s

    def inputs():
        return ([given()] if "a" in case["args"] else [],
                {"b": given()} if "k" in case["args"] else {})

    a, kw = inputs()
    sim.initialize_starting_state(case["warm"], *a, **kw)
    for _ in range(case["warm"]):
        state = advance(a, kw)
    look = random.Random(case["seed"])
    flat = all(isinstance(g, int) for g in case["groups"])
    for k in range(case["k"] + 1):
        if look.random() < case["look"] or k == case["k"]:
            want = {"get_state": state,
                    "get_table": np.stack([state, -state], axis=1),
                    "get_own": "own" if case["own"] else state + .25}
            for name in look.sample(sorted(want), 3):
                got = getattr(sim, name)()
                ctx.check(equal(got, want[name]), "parts:" + name,
                          "groups %s after %d steps: %s gives %s instead of "
                          "%s" % (case["groups"], k, name, show(got),
                                  show(want[name])))
                if not isinstance(want[name], str):
                    j = look.randrange(n)
                    ctx.check(equal(getattr(sim, name)(j), want[name][j]),
                              "household:" + name, "%s(%d) gives %s instead "
                              "of %s" % (name, j, show(getattr(sim, name)(j)),
                                         show(want[name][j])))
                ctx.cover("generic", str(case["groups"]), name)
            ctx.ev(k, simenv.digest(state))
        ctx.check(sim.current_time_step == case["warm"] + k and all(
            p.current_time_step == case["warm"] + k for p in parts), "count",
            "%d steps counted instead of %d" % (sim.current_time_step,
                                                case["warm"] + k))
        if k < case["k"]:
            a, kw = inputs()
            sim.step(*a, **kw)
            state = advance(a, kw)
    if flat:
        key = look.choice([{"odd": 1}, {"odd": 0}, {"size": 2}, {"size": 1},
                           {"odd": 1, "size": 3}, {"nothing": 1}, {}])
        got = sim.get_mask_subgroup(key)
        want = np.concatenate([np.full(p.n_households, all(
            p.subgroup.get(a, None) == b for a, b in key.items()))
            for p in parts])
        ctx.check(equal(got, want), "mask", "the households of %s in %s are "
                  "%s instead of %s" % (key, case["groups"], show(got),
                                        show(want)))
        want = np.concatenate([np.full(p.n_households, p.n_residents)
                               for p in parts])
        ctx.check(equal(sim.n_residents, want), "residents", "the numbers of "
                  "residents are %s instead of %s" % (show(sim.n_residents),
                                                      show(want)))


# --------------------------------------------------------- sampled populations

def sample(case, ctx):
    from demod.simulators.util import sample_population
    ctx.real.add("sample_population")
    w = np.array(case["groups"], dtype=float)
    pdf = w / w.sum()
    kw = {} if case["algo"] is None else {
        "population_sampling_algo": case["algo"]}
    n = case["n"]
    with Rng(ctx, case["extreme"], case["seed"]):
        got = np.asarray(sample_population(n, pdf, **kw))
    ctx.ev(n, got.tolist())
    ctx.cover("sample", n, len(pdf), case["algo"])
    ctx.check(got.shape == pdf.shape and got.sum() == n and (got >= 0).all(),
              "sample", "%s households for %d among %s" % (
                  show(got), n, show(pdf)))
    ctx.check(not got[pdf == 0].any(), "impossible", "%s households from "
              "groups with the probabilities %s" % (show(got), show(pdf)))
    if case["algo"] == "monte_carlo":
        if not case["extreme"]:
            ok = all(p12.near(c, n, q) for c, q in zip(got, pdf))
            ctx.check(ok, "frequency", "%s households sampled from groups "
                      "with the probabilities %s" % (show(got), show(pdf)))
    else:
        ctx.check(bool((np.abs(got - n * pdf) <= 2).all()), "proportional",
                  "%s households among %d for the probabilities %s" % (
                      show(got), n, show(pdf)))


# ------------------------------------------- residents with one possible path

def persons(n, kind, extra):
    """The residents of a household."""
    base = dict(extra)
    if kind == 1 or n == 1:
        if "hh_mean_age" in base and "age" not in base:
            base["age"] = base.pop("hh_mean_age")
        return [base]
    pos = {2: [1, 2], 3: [1] + [3] * (n - 1),
           4: [1, 2] + [3] * (n - 2)}.get(kind)
    if pos is None:
        return [dict(base) for _ in range(n)]
    return [dict(base, household_position=x) for x in pos]


def path(g, first, last):
    """The labels at the slots from `first` to `last`."""
    out = []
    if not g.semi:
        if g.first() is not None:
            pdf, labels = g.first()
        else:
            _, labels, pdf = g.load(0)
        x = p12.norm(labels)[int(np.argmax(pdf))]
        for k in range(last + 1):
            if k >= first:
                out.append(x)
            m, labels = g.step(k)
            labels = p12.norm(labels)
            x = labels[int(np.argmax(m[labels.index(x)]))]
        return out
    pdf, labels, pdur = g.first()
    s = int(np.argmax(pdf))
    x = p12.norm(labels)[s]
    end = max(1, int(np.argmax(pdur[s])))
    for k in range(last + 1):
        if k >= first:
            out.append(x)
        if k + 1 == end:
            m, labels = g.step(k)
            labels = p12.norm(labels)
            i = labels.index(x)
            j = int(np.argmax(m[i]))
            dur = g.dur(k)
            row = dur[i, j] if dur.ndim == 3 else dur[j]
            x = labels[j]
            end = k + 1 + max(1, int(np.argmax(row)))
    return out


def individuals(case, ctx):
    p, k = dict(case["p"]), case["k"]
    s = p12.subject(dict(p, persons=None))
    subs = []
    for (n, kind), age, own in zip(
            p["subs"], p["age"], p.get("own", [None] * len(p["age"]))):
        d = {"n_residents": n}
        if kind is not None:
            d["household_type"] = kind
        if age is not None:
            d["hh_mean_age"] = age
        if own is not None:
            d["age"] = own
        subs.append(d)
    def kinds(j):
        (n, kind), d = p["subs"][j], subs[j]
        return {repr(sorted(x.items())) for x in persons(n, kind, {
            q: v for q, v in d.items() if q not in (
                "n_residents", "household_type")})}
    used = set()
    for j, count in enumerate(p["counts"]):
        used |= kinds(j) if count else set()
    # a kind of person whom nobody is makes no group
    keep = [j for j, count in enumerate(p["counts"]) if kinds(j) <= used]
    subs = [subs[j] for j in keep]
    p["subs"] = [p["subs"][j] for j in keep]
    p["counts"] = [p["counts"][j] for j in keep]
    s.p.update(subs=p["subs"], counts=p["counts"])
    s.subgroups = lambda: [dict(x) for x in subs]
    np.random.seed(case["seed"] % 2 ** 32)
    sim = s.build()
    ctx.real.add(type(sim).__name__)
    cls = p12.SemiGroup if p["kind"].endswith("semi") else p12.MarkovGroup
    data = s.data()
    paths = {}
    homes = []          # the paths of the residents of every household
    for (n, kind), d, count in zip(p["subs"], subs, p["counts"]):
        extra = {q: v for q, v in d.items() if q not in (
            "n_residents", "household_type")}
        home = []
        for person in persons(n, kind, extra):
            key = repr(sorted(person.items()))
            if key not in paths:
                g = cls(p, data, person, p["refresh"], s.start())
                paths[key] = path(g, g.warm, g.warm + k)
            home.append(key)
        homes += [home] * count
    labels = list(F.FakeTOU().base_labels)
    residents = np.array([len(h) for h in homes])
    ctx.check(equal(sim.n_residents, residents) and sim.n_households == len(
        homes), "residents", "residents %s instead of %s" % (
            show(sim.n_residents), show(residents)))
    look = random.Random(case["seed"])
    for j in range(k + 1):
        if look.random() < case["look"] or j == k:
            want = {lab: np.array([sum(paths[q][j] == lab for q in h)
                                   for h in homes]) for lab in labels}
            got = sim.get_activity_states()
            for lab in labels:
                for src, v in (("get_activity_states", got.get(lab)),
                               ("get_n_doing_activity",
                                sim.get_n_doing_activity(lab)),
                               ("get_performing_activity",
                                sim.get_performing_activity(lab))):
                    ctx.check(equal(v, want[lab]), "individuals:%s" % src,
                              "%s after %d steps: %s of %s is %s, but the "
                              "residents give %s" % (
                                  p["kind"], j, src, lab, show(v),
                                  show(want[lab])))
            both = sim.get_n_doing_activity(labels[:2])
            ctx.check(len(both) == 2 and equal(both[1], want[labels[1]]),
                      "individuals:list", "a list of activities gives %s" %
                      show(both))
            occ = residents - want["away"]
            ctx.check(equal(sim.get_occupancy(), occ), "occupancy",
                      "%s after %d steps: occupancy %s instead of %s" % (
                          p["kind"], j, show(sim.get_occupancy()), show(occ)))
            act = occ - want["sleeping"]
            for v in (sim.get_active_occupancy(), got["active_occupancy"]):
                ctx.check(equal(v, act), "active", "%s after %d steps: "
                          "active occupancy %s instead of %s" % (
                              p["kind"], j, show(v), show(act)))
            ctx.cover(p["kind"], str(p["subs"]), p["days"])
            ctx.ev(j, simenv.digest(want))
        if j < k:
            sim.step()
    ctx.sim_seconds += 600 * k


def crest4(case, ctx):
    p, k = case["p"], case["k"]
    s = p12.subject(p)
    w = np.array(p["weights"], dtype=float)
    inner = s.data

    def data():
        d = inner()
        d.pdf = list(w / w.sum())
        return d
    s.data = data
    extra = {} if p["algo"] is None else {
        "population_sampling_algo": p["algo"]}
    kw = s.kw
    s.kw = lambda logger: dict(kw(logger), **extra)
    np.random.seed(case["seed"] % 2 ** 32)
    sim = s.build()
    ctx.real.add(type(sim).__name__)
    res = [int(x) for x in sim.n_residents]
    ctx.check(sim.n_households == p["n"] == len(res), "size",
              "%d households and %d numbers of residents instead of %d" % (
                  sim.n_households, len(res), p["n"]))
    possible = {r for r, x in zip([1, 2, 3], w) if x}
    ctx.check(set(res) <= possible, "impossible", "households of %s, only %s "
              "are possible" % (sorted(set(res)), sorted(possible)))
    d = s.data()
    paths = {}
    for r in set(res):
        g = p12.CrestGroup(p, d, {"n_residents": r}, p["refresh"], s.start())
        # the initial distribution depends on the number of states only
        paths[r] = path(g, g.warm, g.warm + k)
    look = random.Random(case["seed"])
    for j in range(k + 1):
        if look.random() < case["look"] or j == k:
            lab = np.array([paths[r][j] for r in res])
            occ, dorm = lab // 10, np.maximum(lab // 10 - lab % 10, 0)
            act = np.minimum(lab // 10, lab % 10)
            want = {"get_states_labeled": lab, "get_occupancy": occ,
                    "get_active_occupancy": act,
                    "get_thermal_gains": 84 * dorm + 147 * act}
            compare(ctx, "crest4", sim, want, j, look)
            for r in possible:
                m = sim.get_mask_subgroup({"n_residents": r})
                ctx.check(equal(m, np.array(res) == r), "mask", "households "
                          "of %d residents: %s among %s" % (r, show(m), res))
        if j < k:
            sim.step()
    ctx.sim_seconds += 600 * k


def compare(ctx, kind, sim, want, j, look):
    for name in look.sample(sorted(want), len(want)):
        got = getattr(sim, name)()
        ctx.check(equal(got, want[name]), "%s:%s" % (kind, name), "%s after "
                  "%d steps: %s is %s, but the groups give %s" % (
                      kind, j, name, show(got), show(want[name])))
        if name != "get_states_labeled":
            i = look.randrange(len(want[name]))
            ctx.check(getattr(sim, name)(i) == want[name][i],
                      "household:" + name, "%s(%d) gives %s instead of %s" %
                      (name, i, getattr(sim, name)(i), want[name][i]))
        ctx.cover(kind, name, len(want[name]))
    ctx.ev(j, simenv.digest(want))


def sparse(case, ctx):
    from demod.simulators.sparse_simulators import SubgroupsActivitySimulator
    p, k = case["p"], case["k"]
    p12.remember_sparse()
    s = p12.subject(p)
    subs = [{"n_residents": r} for r in p["res"]]
    np.random.seed(case["seed"] % 2 ** 32)
    sim = SubgroupsActivitySimulator(
        [dict(x) for x in subs], list(p["counts"]), data=s.data(),
        **s.skw(None))
    ctx.real.add(type(sim).__name__)
    d = s.data()
    start = s.start() if p["start"] is not None else None
    homes, paths = [], {}
    for r, count in zip(p["res"], p["counts"]):
        if r not in paths:
            g = p12.SparseGroup(p, d, {"n_residents": r}, 4, start)
            paths[r] = path(g, g.warm, g.warm + k)
        homes += [r] * count
    ctx.check(sim.n_households == len(homes), "size", "%d households instead "
              "of %d" % (sim.n_households, len(homes)))
    look = random.Random(case["seed"])
    res = np.array(homes)
    for j in range(k + 1):
        if look.random() < case["look"] or j == k:
            lab = np.array([int(paths[r][j]) for r in homes])
            doing = {"HWH": lab % 7, "HOH": lab // 7 % 7,
                     "active": lab // 49 % 7}
            for i, (a, v) in enumerate(sorted(doing.items())):
                for got in (sim.get_n_doing_state(a),
                            sim.get_n_doing_activity(a),
                            sim.get_n_doing_state([a])[0],
                            sim.get_n_doing_state(
                                ["HWH", "HOH", "active"].index(a))):
                    ctx.check(equal(got, v), "sparse:doing", "after %d steps "
                              "%s do %s, but the groups give %s" % (
                                  j, show(got), a, show(v)))
            occ = res - doing["HWH"] - doing["HOH"]
            act = np.minimum(occ, doing["active"])
            compare(ctx, "sparse_multi", sim, {
                "get_occupancy": occ, "get_active_occupancy": act,
                "get_thermal_gains": 84. * (occ - act) + 147. * act}, j, look)
        if j < k:
            sim.step()
    ctx.sim_seconds += 600 * k
