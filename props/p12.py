"""P12: residents only make the transitions their data allows."""
import datetime

import numpy as np

from sim import fakedata as F
from sim import simenv, zoo
from sim.simenv import Rng, TD, random_start, show

shared, populate, prepare = simenv.shared, simenv.populate, simenv.prepare
CASES = {"quick": 900, "thorough": 60000}
QUICK_S, THOROUGH_S = 100, 1800
CPU_LIMIT = 100
RULE = ("A case simulates seeded transition data over seeded dates, with "
        "extreme random draws as faults, and checks each transition and "
        "duration against the matrix of its time and day; non-trivial if the "
        "trajectory of the states is new.")
STATES = "distinct (simulator, day type, slot of the day, mode) tuples"
ASSUMPTIONS = ["the random numbers come from numpy.random",
               "frequencies are compared up to 6.5 standard deviations"]
SHRINK = ["k", "p.n", "rate"]
KINDS = ["markov", "semimarkov", "semimarkov", "individuals",
         "individuals_semi", "crest_occupancy", "crest4", "sparse", "sparse",
         "sparse_multi"]
SLOT = TD(minutes=10)


def generate(rng, i, tier):
    kind = rng.choice(KINDS)
    p = zoo.KINDS[kind].params(rng)
    p["pdf"] = rng.choice(["certain", "zeros", "dense"])
    p["n"] = rng.choice([1, 3, 20, 60])
    if kind in ("markov", "semimarkov"):
        p["warm"] = rng.choice([0, 0, 1, 2, 7])
    if kind.startswith("individuals"):
        p["real"] = False
        p["persons"] = [{"n_residents": 1, "household_type": 1,
                         "age": a} for a in rng.sample(
                             range(5), rng.choice([1, 2, 3]))]
        p["counts"] = [rng.choice([1, 2, 20]) for _ in p["persons"]]
        p["days"] = rng.choice(["", "use_week_ends_days", "use_week_sat_sun",
                                "use_7days"])
        p["refresh"] = rng.choice([4, 4, 0, 13])
        p["previous"] = rng.random() < .4
    if kind == "crest4":
        p["refresh"] = rng.choice([0, 0, 4, 17]) if not p["real"] else 0
    if kind.startswith("sparse"):
        p["drop"] = rng.random() < .4
        p["dead"] = rng.choice([[], [], ["some"], ["some", "first"]])
        p["many"] = rng.random() < .12 and p["n"] <= 20
        p["short"] = kind == "sparse" and not p["many"] and rng.random() < .15
        if p["short"]:
            p["start"] = None
    if p.get("start") and rng.random() < .5:
        # around a change of the day
        h = p.get("refresh", 4 if kind.startswith("sparse") else 0)
        t = datetime.datetime.fromisoformat(p["start"]["t"]).replace(
            hour=0, minute=0) + TD(hours=h) - SLOT * rng.randrange(6)
        p["start"]["t"] = t.isoformat()
    if p.get("start") and kind.startswith("sparse") and rng.random() < .3:
        t = datetime.datetime.fromisoformat(p["start"]["t"])
        p["start"]["t"] = (t + TD(minutes=rng.randrange(10))).isoformat()
    stats = kind not in ("crest4", "sparse_multi") and rng.random() < .08
    if stats:
        p["n"] = 8000
        p["mode"] = rng.choice(["zeros", "dense"])
        p["pdf"] = "dense"
        p["real"] = False
        if "counts" in p:
            p["persons"] = p["persons"][:1]
            p["counts"] = [8000]
    return {"p": p, "stats": stats,
            "k": rng.choice([3, 13]) if stats else rng.choice(
                [1, 5, 20, 60, 160, 300]),
            "rate": rng.choice([0, 0, .05, .3]) if not stats else 0}


def shrinks(case):
    from sim.core import generic_shrinks
    for c in generic_shrinks(case, SHRINK):
        if c["p"]["n"] > 0 and c["k"] > 0:
            yield c


# ------------------------------------------------------------ data with faults

def pdf_like(out, r, kind):
    if kind == "certain":
        new = np.zeros_like(out)
        new[r.randint(len(out))] = 1.0
        return new
    if kind == "zeros":
        keep = r.random_sample(len(out)) < .5
        keep[r.randint(len(out))] = True
        out = out * keep
        return out / out.sum()
    return out


def subject(p):
    """The zoo's subject with the data of this property."""
    s = zoo.make(p)
    r = simenv.rs(p["salt"], "start")
    if p.get("real"):
        return s
    kind = p["kind"]
    if kind.startswith("individuals"):
        s.subgroups = lambda: [dict(x) for x in p["persons"]]

        def data():
            return F.FakeTOU(p["salt"], p["mode"], relabel=p["relabel"],
                             previous=p["previous"],
                             refresh=datetime.time(p["refresh"]))
    elif kind == "crest4":
        def data():
            return F.FakeCrestTOU(p["salt"], p["mode"], relabel=p["relabel"],
                                  refresh=datetime.time(p["refresh"]))
    elif kind.startswith("sparse"):
        def data():
            return F.FakeSparseTOU(p["salt"], p["mode"], p["vary"],
                                   drop=p["drop"], dead=p.get("dead", []),
                                   n_times=6 if p.get("many") else 300
                                   if p.get("short") else 144,
                                   many=p.get("many", False))
    else:
        data = s.data
    start = {}

    def changed():
        d = data()
        load = {n: getattr(d, n) for n in (
            "load_tpm", "load_tpm_with_duration", "load_sparse_tpm")
            if hasattr(d, n)}

        def wrap(name, at):
            def f(subgroup, *a, **k):
                out = list(load[name](subgroup, *a, **k))
                key = len(out[at])
                if key not in start:
                    start[key] = pdf_like(
                        np.ones(key) / key, simenv.rs(p["salt"], "s", key),
                        p["pdf"])
                out[at] = start[key].copy()
                return tuple(out)
            setattr(d, name, f)
        for name, at in (("load_tpm", 2), ("load_tpm_with_duration", 3),
                         ("load_sparse_tpm", 3)):
            if name in load:
                wrap(name, at)
        return d
    s.data = changed
    return s


# --------------------------------------------------------------- the reference

def days_key(t, use, quarters):
    out = {}
    if use in ("use_week_ends_days", "ends"):
        out["weekday"] = [1, 2, 3, 4, 5] if t.isoweekday() <= 5 else [6, 7]
    elif use == "use_week_sat_sun":
        out["weekday"] = [1, 2, 3, 4, 5] if t.isoweekday() <= 5 \
            else t.isoweekday()
    elif use in ("use_7days", "7"):
        out["weekday"] = t.isoweekday()
    if quarters:
        out["quarter"] = (t.month - 1) // 3 + 1
    return out


class Group:
    """Subjects with the same data: what step k may do to them.

    `origin` is the time of slot 0, `warm` the slots before the start.
    """
    semi = False
    origin = None
    warm = 0

    def __init__(self, p, data, subgroup, refresh=None, start=None):
        self.p, self.data, self.subgroup = p, data, dict(subgroup)
        self._kept = {}
        self.warm = p.get("warm", 0)
        if start is not None:
            start = start.replace(tzinfo=None)
            o = start.replace(hour=0, minute=0, second=0) + TD(hours=refresh)
            if o > start:
                o -= TD(days=1)
            self.origin = o
            self.warm = (start - o) // SLOT

    def load(self, k):
        """Matrices of the day of step k."""
        t = self.origin + k * SLOT if self.origin is not None else None
        key = self.key(t)
        if repr(key) not in self._kept:
            self._kept[repr(key)] = self.read(key)
        return self._kept[repr(key)]

    def key(self, t):
        return dict(self.subgroup)

    def first(self):
        """(pdf, labels) at slot 0."""
        raise NotImplementedError

    def step(self, k):
        """(matrix, labels) of the step from slot k to k + 1."""
        raise NotImplementedError


class MarkovGroup(Group):
    def key(self, t):
        out = dict(self.subgroup)
        if t is not None and (self.p.get("days") or self.p.get("quarters")):
            day = t - TD(hours=self.p["refresh"])
            out.update(days_key(day, self.p["days"], self.p["quarters"]))
        return out

    def read(self, key):
        if self.semi:
            return self.data.load_tpm_with_duration(key)
        return self.data.load_tpm(key)

    def first(self):
        out = self.read(self.subgroup)
        if self.semi:
            return out[3], out[2], out[4]
        return out[2], out[1]

    def step(self, k):
        out = self.load(k)
        T = len(out[0])
        return out[0][(k + 1) % T], out[2 if self.semi else 1]

    def dur(self, k):
        out = self.load(k)
        return out[1][(k + 1) % len(out[1])]


class SemiGroup(MarkovGroup):
    semi = True


class CrestGroup(Group):
    def key(self, t):
        out = dict(self.subgroup)
        if t is not None:
            day = t - TD(hours=self.p["refresh"])
            out["weekday"] = [1, 2, 3, 4, 5] if day.isoweekday() <= 5 \
                else [6, 7]
        return out

    def read(self, key):
        return self.data.load_tpm(key)

    def first(self):
        return None

    def step(self, k):
        out = self.load(k)
        return out[0][k % len(out[0])], out[1]


class SparseGroup(Group):
    def key(self, t):
        out = dict(self.subgroup)
        if t is not None:
            day = t - TD(hours=4)
            d = days_key(day, self.p["days"], self.p["quarters"])
            out["weekday"] = d.get("weekday", 0)
            out["quarter"] = d.get("quarter")
        return out

    def read(self, key):
        tpm, labels, _, pdf = self.data.load_sparse_tpm(key)
        return tpm, labels, pdf

    def first(self):
        out = self.read(self.subgroup)
        return out[2], out[1]

    def step(self, k):
        tpm, labels, _ = self.load(k)
        key = (k % tpm.shape[0], id(tpm))
        if key not in self._kept:
            m = dense(tpm, k % tpm.shape[0], len(labels),
                      self.origin is not None)
            self._kept[key] = m
        return self._kept[key], labels


def dense(tpm, k, n, dated):
    m = np.zeros((n, n))
    it, i, j, v = sparse_parts(tpm)
    at = it == k
    m[i[at], j[at]] = v[at]
    empty = m.sum(axis=1) == 0
    if dated and not empty[0]:
        m[empty] = m[0]       # nothing is known: everyone sleeps, and goes on
    else:
        m[empty] = np.eye(n)[empty]
    return m


def sparse_parts(tpm):
    """The coordinates and values given to the matrix."""
    return tpm._parts


def groups(s):
    """The groups of subjects, in the order they are shown."""
    p, kind = s.p, s.p["kind"]
    data = s.data()
    if kind == "markov":
        return [(p["n"], MarkovGroup(dict(p, days="", quarters=False),
                                     data, {}))]
    if kind == "semimarkov":
        return [(p["n"], SemiGroup(dict(p, days="", quarters=False),
                                   data, {}))]
    if kind.startswith("individuals"):
        cls = SemiGroup if kind.endswith("semi") else MarkovGroup
        return [(c, cls(p, data, {"age": x["age"]}, p["refresh"], s.start()))
                for x, c in zip(p["persons"], p["counts"])]
    if kind == "crest_occupancy":
        sub = {"n_residents": p["res"], "weekday": [1, 2, 3, 4, 5]
               if p["day"] == "d" else [6, 7]}
        return [(p["n"], CrestFixed(p, data, sub))]
    raise KeyError(kind)


class CrestFixed(CrestGroup):
    def first(self):
        out = self.read(self.subgroup)
        return out[2], out[1]


def remember_sparse():
    """Keeps what sparse matrices are made of, for the reference."""
    from demod.utils import sparse
    init = sparse.SparseTPM.__init__

    def keep(self, it, i, j, v, *a, **k):
        self._parts = tuple(np.array(x) for x in (it, i, j, v))
        init(self, it, i, j, v, *a, **k)
    sparse.SparseTPM.__init__ = keep


def observe(s, sim, gs):
    """The label of every subject."""
    kind = s.p["kind"]
    if kind in ("markov", "semimarkov"):
        out = np.array([None] * s.p["n"], dtype=object)
        count = np.zeros(s.p["n"], dtype=int)
        for lab in sim.state_labels:
            m = np.asarray(sim.get_n_doing_activity(lab), dtype=bool)
            out[m] = lab
            count += m
        return out, count
    if kind.startswith("individuals"):
        st = sim.get_activity_states()
        n = sim.n_households
        out = np.array([None] * n, dtype=object)
        count = np.zeros(n, dtype=int)
        for lab, v in st.items():
            if lab == "active_occupancy":
                continue
            v = np.asarray(v)
            out[v > 0] = lab
            count += v
        return out, count
    if kind == "crest4":
        out = np.array([int(x) for x in sim.get_states_labeled()],
                       dtype=object)
    elif kind == "sparse_multi":
        out = np.concatenate([np.array([int(x) for x in z.state_labels[
            z.current_states]], dtype=object) for z in sim.simulators])
    else:
        out = np.array([int(x) for x in sim.state_labels[
            sim.current_states]], dtype=object)
    return out, np.ones(len(out), dtype=int)


def norm(labels):
    return [x if isinstance(x, str) and not isinstance(x, np.str_)
            else (str(x) if isinstance(x, (str, np.str_)) else int(x))
            for x in labels]


def execute(case, ctx):
    p = case["p"]
    kind = p["kind"]
    remember_sparse()
    s = subject(p)
    np.random.seed(case["seed"] % 2 ** 32)
    with Rng(ctx, case["rate"], case["seed"]):
        sim = s.build()
        ctx.real.add(type(sim).__name__)
        if kind == "crest4":
            n_res = [int(x) for x in sim.n_residents]
            gs, data = [], s.data()
            for r in sorted(set(n_res)):
                gs.append((n_res.count(r), CrestGroup(
                    p, data, {"n_residents": r}, p["refresh"],
                    s.start())))
        elif kind.startswith("sparse"):
            data = s.data()
            start = s.start() if p["start"] is not None else None
            subs = [x.subgroup_kwargs for x in sim.simulators] \
                if kind == "sparse_multi" else [None]
            gs = []
            if kind == "sparse":
                res = p["res"] if not p["real"] else min(2, p["res"])
                pairs = [(p["n"], s.subgroup(res))]
            else:
                res = [1, 2] if p["real"] else [1, 2, 3]
                pairs = [(x.n_households, s.subgroup(r))
                         for x, r in zip(sim.simulators, res)]
            for n, sub in pairs:
                gs.append((n, SparseGroup(p, data, sub, 4, start)))
        else:
            gs = groups(s)
        obs = []
        for k in range(case["k"] + 1):
            out, count = observe(s, sim, gs)
            ctx.check(bool((count == 1).all()), "several:%s" % kind,
                      "%s: after %d steps the residents are in %s states at "
                      "once" % (kind, k, show(count)))
            obs.append(np.array(norm(out), dtype=object))
            ctx.ev(k, simenv.digest([str(x) for x in out]))
            if k < case["k"]:
                s.do_step(sim, k)
    ctx.sim_seconds += case["k"] * 600
    at = 0
    for n, g in gs:
        part = [o[at:at + n] for o in obs]
        at += n
        if case["stats"]:
            frequencies(case, ctx, g, part)
        elif g.semi:
            check_semi(case, ctx, g, part)
        else:
            check_chain(case, ctx, g, part)
    ctx.check(at == len(obs[0]), "size:%s" % kind, "%d subjects instead of "
              "%d" % (len(obs[0]), at))


def moved(old, labels):
    """The labels after the data of a new day is used."""
    known = set(labels)
    return [x if x in known else labels[0] for x in old]


def check_chain(case, ctx, g, part):
    kind = case["p"]["kind"]
    first = g.first()
    if first is not None:
        pdf, labels = first
        labels = norm(labels)
        can = {lab for lab, q in zip(labels, pdf) if q > 0}
        if isinstance(g, SparseGroup) and g.origin is not None:
            # the data of the first day is used at once
            can = set(moved(sorted(can), norm(g.step(0)[1])))
        for k in range(g.warm):
            m, labels = g.step(k)
            labels = norm(labels)
            at = [labels.index(x) for x in moved(sorted(can, key=str),
                                                 labels)]
            can = {labels[j] for j in np.where(m[at].any(axis=0))[0]}
        bad = [x for x in part[0] if x not in can]
        ctx.check(not bad, "initial:%s" % kind, "%s: starts in %s, but only "
                  "%s are possible after %d slots" % (
                      kind, bad[:3], sorted(can, key=str)[:12], g.warm))
    for k in range(len(part) - 1):
        m, labels = g.step(g.warm + k)
        labels = norm(labels)
        at = {x: i for i, x in enumerate(labels)}
        ctx.cover(kind, repr(g.key(g.origin + (g.warm + k) * SLOT
                                   if g.origin is not None else None)),
                  (g.warm + k) % 144, case["p"].get("mode"))
        pairs = set(zip(moved(part[k], labels), part[k + 1]))
        for a, b in sorted(pairs, key=str):
            ok = b in at and m[at[a], at[b]] > 0
            if not ok:
                ctx.fail("transition:%s" % kind, "%s: in step %d from slot "
                         "%d%s, %s became %s, possible are only %s" % (
                             kind, k, (g.warm + k) % 144,
                             "" if g.origin is None else " (%s)" % (
                                 g.origin + (g.warm + k) * SLOT), a, b,
                             [labels[j] for j in np.where(m[at[a]] > 0)[0]]
                             [:10]))


def support(dur, s, prev):
    row = dur[prev, s] if dur.ndim == 3 else dur[s]
    return [max(1, int(d)) for d in np.where(row > 0)[0]]


def check_semi(case, ctx, g, part):
    kind = case["p"]["kind"]
    pdf, labels, pdur = g.first()
    labels = norm(labels)
    # the slots at which each state may end, for those in it at the start
    stay = {}
    for s, q in enumerate(pdf):
        if q > 0:
            stay[labels[s]] = {max(1, int(d))
                               for d in np.where(pdur[s] > 0)[0]}
    for k in range(g.warm):
        m, labels = g.step(k)
        labels = norm(labels)
        at = {x: i for i, x in enumerate(labels)}
        dur = g.dur(k)
        new = {}
        for a, ends in stay.items():
            rest = {e for e in ends if e > k + 1}
            if rest:
                new.setdefault(a, set()).update(rest)
            if k + 1 in ends:
                for j in np.where(m[at[a]] > 0)[0]:
                    new.setdefault(labels[j], set()).update(
                        k + 1 + d for d in support(dur, j, at[a]))
        stay = new
    ends = []
    for x in part[0]:
        ctx.check(x in stay, "initial:%s" % kind, "%s: starts in %s, but "
                  "only %s are possible" % (kind, x, sorted(stay)))
        ends.append(frozenset(stay.get(x, ())))
    for k in range(len(part) - 1):
        n = g.warm + k
        m, labels = g.step(n)
        labels = norm(labels)
        at = {x: i for i, x in enumerate(labels)}
        dur = g.dur(n)
        ctx.cover(kind, repr(g.key(g.origin + n * SLOT
                                   if g.origin is not None else None)),
                  n % 144, case["p"]["mode"])
        memo = {}
        for h, (a, b) in enumerate(zip(part[k], part[k + 1])):
            if a == b:
                ends[h] = frozenset(e for e in ends[h] if e > n + 1)
                ctx.check(bool(ends[h]), "duration:%s" % kind,
                          "%s: %s lasts longer than any duration it may "
                          "have, at slot %d" % (kind, a, n + 1))
                continue
            ctx.check(n + 1 in ends[h], "duration:%s" % kind,
                      "%s: %s ends at slot %d, but its durations only allow "
                      "%s" % (kind, a, n + 1, sorted(ends[h])[:8]))
            ctx.check(m[at[a], at[b]] > 0, "transition:%s" % kind,
                      "%s: at slot %d %s became %s, possible are only %s" % (
                          kind, n + 1, a, b, [labels[j] for j in
                                              np.where(m[at[a]] > 0)[0]]))
            if (a, b) not in memo:
                memo[a, b] = frozenset(
                    n + 1 + d for d in support(dur, at[b], at[a]))
            ends[h] = memo[a, b]


def near(count, n, q):
    q = min(1.0, max(0.0, q))
    return abs(count - n * q) <= 6.5 * (n * q * (1 - q)) ** .5 + 4


def frequencies(case, ctx, g, part):
    """The frequencies of the outcomes match the probabilities."""
    kind = case["p"]["kind"]
    ctx.probe("frequency tests")
    first = g.first()
    if first is not None and g.warm == 0 and not (
            isinstance(g, SparseGroup) and g.origin is not None):
        for lab, q in zip(norm(first[1]), first[0]):
            c = int(np.sum(part[0] == lab))
            ctx.check(near(c, len(part[0]), q), "frequency:%s" % kind,
                      "%s: %d of %d start in %s, which has probability %.3f"
                      % (kind, c, len(part[0]), lab, q))
    if g.semi:
        return semi_frequencies(case, ctx, g, part)
    for k in range(len(part) - 1):
        m, labels = g.step(g.warm + k)
        labels = norm(labels)
        old = np.array(moved(part[k], labels), dtype=object)
        for i, a in enumerate(labels):
            mask = old == a
            n = int(mask.sum())
            if n < 150:
                continue
            tot = m[i].sum()
            for j, b in enumerate(labels):
                c = int(np.sum(part[k + 1][mask] == b))
                ctx.check(near(c, n, m[i, j] / tot), "frequency:%s" % kind,
                          "%s: %d of %d went from %s to %s, which has "
                          "probability %.3f" % (kind, c, n, a, b,
                                                m[i, j] / tot))


def semi_frequencies(case, ctx, g, part):
    kind = case["p"]["kind"]
    if g.warm:
        return
    pdf, labels, pdur = g.first()
    labels = norm(labels)
    part = np.array(part)
    K = len(part) - 1
    # slot of the first and the second change of every subject
    n = part.shape[1]
    change = part[1:] != part[:-1]
    leave = np.where(change.any(axis=0), change.argmax(axis=0) + 1, K + 1)
    for s, a in enumerate(labels):
        mask = part[0] == a
        if mask.sum() < 150:
            continue
        for d in range(1, min(K, len(pdur[s]) - 1) + 1):
            q = pdur[s][d] + (pdur[s][0] if d == 1 else 0)
            c = int(np.sum(leave[mask] == d))
            ctx.check(near(c, int(mask.sum()), q), "frequency:%s" % kind,
                      "%s: %d of %d stay %d slots in %s, which has "
                      "probability %.3f" % (kind, c, mask.sum(), d, a, q))
    for d in range(1, K):
        m, labs = g.step(d - 1)
        labs = norm(labs)
        dur = g.dur(d - 1)
        for i, a in enumerate(labs):
            mask = (leave == d) & (part[0] == a)
            if mask.sum() < 150:
                continue
            for j, b in enumerate(labs):
                to = mask & (part[d] == b)
                ctx.check(near(int(to.sum()), int(mask.sum()), m[i, j]),
                          "frequency:%s" % kind, "%s: %d of %d leave %s for "
                          "%s, which has probability %.3f" % (
                              kind, to.sum(), mask.sum(), a, b, m[i, j]))
                if to.sum() < 150:
                    continue
                row = dur[i, j] if dur.ndim == 3 else dur[j]
                for e in range(1, min(len(row) - 1, K - d) + 1):
                    stays = to & (part[d:d + e] == b).all(axis=0) \
                        & (part[d + e] != b)
                    ctx.check(near(int(stays.sum()), int(to.sum()), row[e]
                                   + (row[0] if e == 1 else 0)),
                              "frequency:%s" % kind, "%s: %d of %d stay %d "
                              "slots in %s, which has probability %.3f" % (
                                  kind, stays.sum(), to.sum(), e, b, row[e]))
