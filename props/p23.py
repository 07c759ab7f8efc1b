"""P23: statistics of recorded days reproduce these days in a simulation."""
from collections import Counter

import numpy as np

from sim import simenv
from sim.simenv import Rng, equal, rs, show

shared, populate, prepare = simenv.shared, simenv.populate, simenv.prepare
CASES = {"quick": 600, "thorough": 100000}
QUICK_S, THOROUGH_S = 100, 1500
CPU_LIMIT = 100
RULE = ("A case records seeded days of seeded persons, with recorders that "
        "stall or skip as faults, takes the statistics of the records and "
        "simulates a population from them; non-trivial if the simulated "
        "histories are new.")
STATES = "distinct (kind of days, options, form of the records) tuples"
ASSUMPTIONS = ["the random numbers come from numpy.random"]
SHRINK = ["n", "T", "S", "rate", "stall", "skip", "people"]


def generate(rng, i, tier):
    n, T = rng.choice([1, 2, 3, 8, 30]), rng.choice([2, 3, 5, 12, 48, 144])
    S = rng.choice([1, 2, 3, 5, 9])
    if T <= 12 and rng.random() < .2:
        n, S = rng.choice([n, 300]), rng.choice([20, 40])
    return {"salt": rng.randrange(10 ** 6), "n": n, "T": T, "S": S,
            "days": rng.choice(["same", "routine", "flicker", "constant",
                                "some constant", "once"]),
            "stall": rng.choice([0, 0, .1]), "skip": rng.choice([0, 0, .05]),
            "extra": rng.random() < .3, "ignore": rng.random() < .5,
            "algo": rng.choice(["last", "nothing"]),
            "kind": rng.choice(["chain", "semi", "semi previous"]),
            "people": rng.choice([1, 4, 40]), "laps": rng.choice([1, 1, 2, 3]),
            "names": rng.random() < .5,
            "rate": rng.choice([0, 0, .05, .3])}


def shrinks(case):
    from sim.core import generic_shrinks
    for c in generic_shrinks(case, SHRINK):
        if min(c["n"], c["S"], c["people"]) > 0 and c["T"] > 1:
            yield c


def execute(case, ctx):
    with Rng(ctx, case["rate"], case["seed"]):
        np.random.seed(case["seed"] % 2 ** 32)
        run(case, ctx)


def record(case, ctx, name="days"):
    """What seeded persons did, as recorded."""
    r = rs(case["salt"], name)
    n, T, S, kind = case["n"], case["T"], case["S"], case["days"]
    base = np.repeat(r.randint(S, size=T), r.randint(1, 1 + max(1, T // 4),
                                                     size=T))[:T]
    out = np.tile(base, (n, 1))
    if kind == "routine":
        out = np.array([np.roll(base, r.randint(-2, 3)) for _ in range(n)])
    elif kind == "flicker":
        out = r.randint(S, size=(n, T))
    elif kind == "once":
        first, then = r.randint(S, size=n), r.randint(S, size=n)
        at = r.randint(T, size=n)
        out = np.where(np.arange(T) < at[:, None], first[:, None],
                       then[:, None])
    elif kind == "constant":
        out = np.tile(r.randint(S, size=n)[:, None], (1, T))
    elif kind == "some constant":
        stay = r.random_sample(n) < .5
        out = np.where(stay[:, None], r.randint(S, size=n)[:, None],
                       r.randint(S, size=(n, T)))
    for h in range(n):
        for t in range(1, T):
            if r.random_sample() < case["stall"]:
                ctx.fault("stalled recorder")
                out[h, t] = out[h, t - 1]
            elif r.random_sample() < case["skip"]:
                ctx.fault("skipped record")
                out[h, t] = r.randint(S)
    return out


def run(case, ctx):
    from demod.utils import parse_helpers as ph
    ctx.real.update(["parse_helpers", "get_durations_by_states",
                     "MarkovChain1rstOrder", "SemiMarkovSimulator"])
    raw = record(case, ctx)
    ctx.ev("days", simenv.digest(raw))
    merged(case, ctx, ph, raw)
    # every state occurs, as the statistics need it
    used, days = np.unique(raw, return_inverse=True)
    days = days.reshape(raw.shape)
    kept = days.copy()
    transitions(case, ctx, ph, days)
    secondary(case, ctx, ph, days)
    durations(case, ctx, days)
    chain(case, ctx, ph, days, len(used))
    semi(case, ctx, ph, days, len(used))
    ctx.check(equal(days, kept), "changed", "the records are changed")
    simulate(case, ctx, ph, days, len(used))
    ctx.cover(case["days"], case["algo"], case["ignore"], case["kind"],
              case["extra"], len(used), days.shape)


def merged(case, ctx, ph, raw):
    """States merged by name."""
    r = rs(case["salt"], "names")
    names = {s: "act%d" % r.randint(max(1, case["S"] - 1))
             for s in range(case["S"])} if case["names"] else None
    states, labels = ph.convert_states(raw, names)
    want = [[names[s] if names else s for s in row] for row in raw]
    got = np.asarray(labels)[np.asarray(states)]
    ctx.check(got.tolist() == np.array(want).tolist() and
              len(set(labels.tolist())) == len(labels), "merge",
              "merging %s by %s gives %s of %s" % (
                  show(raw), names, show(states), show(labels)))


def ref_transitions(days, ignore):
    """(time, person, old, new) of every change."""
    out = []
    for p, row in enumerate(days):
        for t in range(len(row)):
            if t == 0 and ignore:
                continue
            if row[t] != row[t - 1]:
                out.append((t, p, row[t - 1], row[t]))
    return out


def ref_durations(days, ignore):
    """{(time, person): duration} of what follows every change."""
    out, T = {}, days.shape[1]
    for p, row in enumerate(days):
        ts = [t for t, q, _, _ in ref_transitions(days[p:p + 1], ignore)]
        for a, b in zip(ts, ts[1:] + [None]):
            if b is not None:
                out[a, p] = b - a
            elif row[ts[0] - 1] == row[a]:
                out[a, p] = ts[0] + T - a     # continues on the next day
            else:
                out[a, p] = 0 if ignore else T - a
    return out


def items(d, *names):
    cols = [np.asarray(d[x]).tolist() for x in names]
    if len(set(map(len, cols))) != 1:
        return "columns of %s" % [len(c) for c in cols]
    return Counter(zip(*cols))


def transitions(case, ctx, ph, days):
    ig = case["ignore"]
    got = ph.states_to_transitions(
        days, return_duration=True, ignore_end_start_transitions=ig)
    dur = ref_durations(days, ig)
    want = Counter((t, p, int(a), int(b), int(dur[t, p]))
                   for t, p, a, b in ref_transitions(days, ig))
    ctx.check(items(got, "times", "persons", "old_states", "new_states",
                    "durations") == want, "transitions",
              "days %s have the transitions %s instead of %s" % (
                  show(days), show(got), show(sorted(want))))
    got = ph.states_to_transitions(days, include_same_state=True)
    want = Counter((t, p, int(row[t - 1]), int(row[t]))
                   for p, row in enumerate(days) for t in range(len(row)))
    ctx.check(items(got, "times", "persons", "old_states", "new_states")
              == want, "transitions", "days %s have the steps %s" % (
                  show(days), show(got)))


def secondary(case, ctx, ph, days):
    """Changes of two activities at once, and of whole households."""
    r = rs(case["salt"], "second")
    n, T = days.shape
    second = np.where(r.random_sample((n, T)) < .5, days,
                      r.randint(case["S"] + 1, size=(n, T)))
    want = []
    for h in range(n):
        for t in range(1, T):
            p, s = days[h, t], second[h, t]
            for a, b in ((days[h, t - 1], p), (second[h, t - 1], s)):
                if a not in (p, s):
                    want.append((t, h, int(a), int(b)))
    got = ph.states_to_transitions_secondary(days, second)
    ctx.check(items(got, "times", "persons", "old_states", "new_states")
              == Counter(want), "secondary", "%s and %s have %s instead of %s"
              % (show(days), show(second), show(got), show(sorted(want))))
    hh, day = r.randint(10, 10 + max(1, n // 2), size=n), r.randint(4, size=n)
    if r.random_sample() < .5:
        # other numbers of the households and of the days
        top = [10, 300, 70000, 10 ** 9]
        hh, day = (r.randint(top[r.randint(4)], size=max(hh) + 1)[hh],
                   r.randint(-5, top[r.randint(4)], size=4)[day])
    for kw, moves in (({}, ref_transitions(days, False)),
                      ({"secondary_states": second}, want)):
        if not moves:
            continue
        got = ph.group_hh_transitions(days, hh, day, **kw)
        ref = Counter((t, int(hh[p]), int(a), int(b), int(day[p]))
                      for t, p, a, b in moves)
        ref = Counter({k + (c,): 1 for k, c in ref.items()})
        ctx.check(items(got, "times", "households", "old_states",
                        "new_states", "day_nrs", "counts") == ref, "groups",
                  "households %s of %s have %s" % (
                      show(hh), show(days), show(got)))


def ref_lengths(days):
    """How often every state lasts how long, days being repeated."""
    want = Counter()
    for row in days:
        cut = [t for t in range(len(row)) if row[t] != row[t - 1]]
        if not cut:
            want[int(row[0]), len(row)] += 1
        for a, b in zip(cut, cut[1:] + [(cut or [0])[0] + len(row)]):
            want[int(row[a]), b - a] += 1
    return want


def durations(case, ctx, days):
    """How long every state lasts, days being repeated."""
    from demod.metrics.states import get_durations_by_states
    want = ref_lengths(days)
    got = Counter((int(s), int(x)) for s, v in
                  get_durations_by_states(days).items() for x in v)
    ctx.check(got == want, "durations", "the states of %s last %s instead of "
              "%s" % (show(days), sorted(got.items()), sorted(want.items())))


def normal(counts):
    """Rows of probabilities; states that were never left are kept."""
    out = np.array(counts, dtype=float)
    for t, s in np.argwhere(out.sum(axis=2) == 0):
        out[t, s, s] = 1
    return out / out.sum(axis=2, keepdims=True)


def ref_chain(days, m, algo):
    """Probabilities of the transitions of the days among m states."""
    T = days.shape[1]
    want = np.zeros((T, m, m))
    for row in days:
        for t in range(T):
            want[t, row[t - 1], row[t]] += 1
    if algo == "last":
        want[0] = want[-1]
    return normal(want)


def chain(case, ctx, ph, days, S):
    labels = list(range(S + 2)) if case["extra"] else None
    want = ref_chain(days, S + 2 if case["extra"] else S, case["algo"])
    got = ph.states_to_tpms(days, case["algo"], labels)
    ctx.check(equal(np.asarray(got), want, 1e-12), "matrices",
              "days %s give %s instead of %s" % (
                  show(days), show(got), show(want)))


def ref_semi(days, m, algo, ig, previous=True):
    """Transitions, and durations of what follows them, of the days."""
    T = days.shape[1]
    tpm, dur = np.zeros((T, m, m)), np.zeros((T, m, T + 1))
    prev = np.zeros((T, m, m, T + 1) if previous else (1, m, m, T + 1))
    d = ref_durations(days, ig)
    for t, p, a, b in ref_transitions(days, ig):
        tpm[t, a, b] += 1
        dur[t, b, d[t, p]] += 1
        if previous:
            prev[t, a, b, d[t, p]] += 1
    if algo == "last":
        tpm[0], dur[0], prev[0] = tpm[-1], dur[-1], prev[-1]
    for s in range(m):
        c = sum(1 for row in days if (row == s).all())
        tpm[0, s, s] = dur[0, s, -1] = prev[0, s, s, -1] = c
    for x in (dur, prev):
        x[x.sum(axis=-1) == 0, 0] = 1
        x /= x.sum(axis=-1, keepdims=True)
    return normal(tpm), dur, prev


def ref_first(days, S):
    """How often the first state lasts how long."""
    T = days.shape[1]
    want = np.zeros((S, T + 1))
    for row in days:
        other = np.where(row != row[0])[0]
        want[row[0], other[0] if len(other) else T] += 1
    return want


def semi(case, ctx, ph, days, S):
    labels = list(range(S + 2)) if case["extra"] else None
    want = ref_semi(days, S + 2 if case["extra"] else S, case["algo"],
                    case["ignore"])
    got = ph.states_to_tpms_with_durations(
        days, case["algo"], labels,
        ignore_end_start_transitions=case["ignore"])
    for name, a, b in zip(("matrices", "durations", "durations by previous"),
                          got, want):
        ctx.check(equal(np.asarray(a), b, 1e-12), "semi " + name,
                  "the %s of days %s are %s instead of %s" % (
                      name, show(days), show(a), show(b)))
    want = ref_first(days, S)
    got = ph.get_initial_durations_pdfs(days)
    for s in range(S):
        if want[s].sum():
            ctx.check(equal(np.asarray(got)[s], want[s] / want[s].sum(),
                            1e-12), "first durations", "days %s give %s"
                      % (show(days), show(got)))
    ctx.check(np.allclose(np.asarray(got).sum(axis=1), 1), "first durations",
              "%s are no probabilities" % show(got))


def simulate(case, ctx, ph, days, S):
    """The days of a population that is simulated from the statistics."""
    from demod.simulators.activity_simulators import (
        MarkovChain1rstOrder, SemiMarkovSimulator)
    n, T = case["people"], days.shape[1]
    pdf = np.bincount(days[:, 0], minlength=S) / len(days)
    if case["kind"] == "chain":
        tpm = ph.states_to_tpms(days, "nothing")
        sim = MarkovChain1rstOrder(n, S, tpm, np.arange(S))
        sim.initialize_starting_state(pdf)
    else:
        # the days follow each other without a break
        tpm, dur, prev = ph.states_to_tpms_with_durations(
            days, "nothing", ignore_end_start_transitions=False)
        first = ph.get_initial_durations_pdfs(days)
        sim = SemiMarkovSimulator(n, S, tpm, prev if case["kind"] ==
                                  "semi previous" else dur, np.arange(S))
        sim.initialize_starting_state(pdf, first)
    out = [np.array(sim.current_states)]
    for _ in range(T * case["laps"] - 1):
        sim.step()
        out.append(np.array(sim.current_states))
    lived = np.array(out).T
    ctx.ev("lived", simenv.digest(lived))
    ctx.sim_seconds += lived.shape[1] * 86400 // T
    could = {(t, int(row[t - 1]), int(row[t])) for row in days
             for t in range(T)}
    starts = set(days[:, 0].tolist())
    for row in lived:
        ctx.check(int(row[0]) in starts, "lived", "starts in %d" % row[0])
        for k in range(1, len(row)):
            ctx.check((k % T, int(row[k - 1]), int(row[k])) in could, "lived",
                      "%d follows %d at %d of %d, which is not among the days "
                      "%s" % (row[k], row[k - 1], k % T, T, show(days)))
    if (days == days[0]).all():
        ctx.probe("single day lived again")
        want = np.tile(days[0], case["laps"])
        ctx.check(bool((lived == want).all()), "same day", "the day %s is "
                  "lived as %s" % (show(want), show(lived[0])))
