"""P25: a time use survey becomes the data of exactly its diaries."""
import os

import numpy as np

from props import p23
from sim import simenv, survey
from sim import survey_codes as C
from sim.simenv import equal, rs, show

shared, populate = simenv.shared, simenv.populate
CASES = {"quick": 600, "thorough": 40000}
QUICK_S, THOROUGH_S = 60, 1500
CPU_LIMIT = 150
RULE = ("A case records a seeded survey, with lost days, residents who fill "
        "no diary, diaries of other days and refused answers as faults, "
        "writes its files, and loads the data of seeded subgroups from them; "
        "non-trivial if some diary is in a subgroup.")
STATES = "distinct (data, subgroup, size of the survey) tuples"
ASSUMPTIONS = ["the survey, which is not public, is simulated in files of its "
               "form", "residents who fill no diary are the last ones of "
               "their household"]
SHRINK = ["n", "codes", "lost", "absent", "apart", "refused", "travel",
          "loads"]
T = survey.T
KINDS = ["tpm", "tpm", "durations", "profiles", "starts", "lengths",
         "shares"]


def prepare(root):
    simenv.prepare(root)
    import pandas  # noqa
    import demod.datasets.GermanTOU.loader  # noqa


def generate(rng, i, tier):
    n = rng.choice([1, 1, 2, 2, 6, 6, 6, 20, 40])
    loads = []
    for _ in range(rng.choice([1, 2, 3])):
        act = rng.choice(["DemodActivities_0", "Bottaccioli2018", "4_States",
                          "Sparse9States"])
        kind = rng.choice(KINDS)
        if act == "4_States" and kind not in ("tpm", "durations"):
            kind = rng.choice(["tpm", "durations"])
        if act == "Sparse9States":
            kind = "sparse"
        loads.append([act, kind, survey.subgroup(rng) if rng.random() < .7
                      else {}])
    return {"salt": rng.randrange(10 ** 6), "n": n,
            "codes": rng.choice([1, 2, 6, 20, 200]),
            "sleep": rng.choice([0, 30, 30]),
            "lost": rng.choice([0, .1, .5]), "absent": rng.choice([0, .2]),
            "apart": rng.choice([0, .2]), "refused": rng.choice([0, .2]),
            "travel": rng.choice([0, .1, .3]), "loads": loads,
            "masks": [survey.subgroup(rng) for _ in range(6)]}


def shrinks(case):
    from sim.core import generic_shrinks
    for c in generic_shrinks(case, SHRINK + ["masks"]):
        if c["n"] > 0 and c["codes"] > 0:
            yield c


def execute(case, ctx):
    r = rs(case["salt"], "survey")
    world = survey.make(case, r, ctx.fault)
    base = os.path.join(ctx.root, "demod", "datasets", "GermanTOU")
    survey.write(os.path.join(base, "raw_data"), *world)
    ctx.ev("survey", simenv.digest(np.array(
        [d["main"] + d["other"] for d in world[2]])))
    from demod.datasets.GermanTOU import parser
    diaries = world[2]
    home = places(diaries)
    if hasattr(parser, "occ"):
        told(ctx, diaries, home, np.asarray(parser.occ))
    loose = {"only_fully_recorded_household": False,
             "remove_missing_days": False,
             "only_household_identical_days": False}
    for k, sub in enumerate(case["masks"] if hasattr(
            parser, "get_mask_subgroup") else []):
        kw = dict(list(loose.items())[:k % 4]) if k % 2 else {}
        want = survey.picks(world, sub, *[
            x not in kw for x in loose])
        got = np.asarray(parser.get_mask_subgroup(**survey.real(sub), **kw))
        ctx.check(got.shape == want.shape and bool((got == want).all()),
                  "mask", "the subgroup %s %s has the diaries %s instead of "
                  "%s" % (sub, kw, show(np.where(got)[0]),
                          show(np.where(want)[0])))
    cleared = set()
    for act, kind, sub in case["loads"]:
        mine = survey.picks(world, sub)
        if not mine.any():
            continue
        ctx.probe("subgroup with diaries")
        ctx.cover(act, kind, sorted(sub), case["n"])
        ctx.ev("load", act, kind, sorted(sub.items()), int(mine.sum()))
        load(ctx, act, kind, survey.real(sub),
             [d for d, m in zip(diaries, mine) if m], home[mine],
             act not in cleared)
        cleared.add(act)
    ctx.sim_seconds += 600 * T * len(diaries)


def travelling(code):
    return code >= 900 and code not in (997, 998, 999)


RATING = {c: k for k, cs in C.HOME.items() for c in cs}


def suggests(d, t):
    return RATING[d["main"][t]] + RATING[d["other"][t]]


def places(diaries):
    """Where each diary tells its resident is."""
    out = np.zeros((len(diaries), T), dtype=bool)
    for k, d in enumerate(diaries):
        away = [travelling(d["main"][t]) or travelling(d["other"][t])
                for t in range(T)]
        last = max([t for t in range(T) if away[t]], default=-1)
        end = d["tc8"]
        if end == -2:
            end = diaries[k + 1]["tc7"]
        here = before = (suggests(d, 0) >= 0 if d["tc7"] == -1
                         else d["tc7"] == 1)
        for t in range(T):
            if away[t]:
                if not t or not away[t - 1]:
                    before = here
                here = False
            elif t and away[t - 1]:
                if t - 1 != last:
                    here = suggests(d, t) + (-1 if before else 1) >= 0
                elif end == -1:
                    here = suggests(d, T - 1) >= 0
                else:
                    here = end == 1
            out[k, t] = here
    return out


def told(ctx, diaries, home, got):
    ctx.check(got.shape == home.shape, "places", "places of shape %s"
              % (got.shape,))
    for k, t in np.argwhere(got.astype(bool) != home)[:1]:
        d = diaries[k]
        ctx.fail("places", "diary %d (from %s to %s, travels at %s) is %s at "
                 "%d" % (k, d["tc7"], d["tc8"], [
                     x for x in range(T) if travelling(d["main"][x])
                     or travelling(d["other"][x])],
                     "at home" if got[k, t] else "away", t))


def named(names):
    return {c: a for a, cs in names.items() for c in cs}


def acts(act, mine, home):
    """What everyone does, by name."""
    of = named(C.DEMOD if act == "DemodActivities_0" else C.BOTTACCIOLI)
    of = {c: {"-": "other"}.get(a, a) for c, a in of.items()}

    def name(d, t):
        x, y = of[d["main"][t]], d["other"][t]
        return of[y] if x == "other" and y else x
    return [["away" if not at[t] else name(d, t) for t in range(T)]
            for d, at in zip(mine, home)]


def asleep(code):
    return code in C.NOT_ACTIVE


def grouped(mine, values):
    """Sums by household and day."""
    out = {}
    for d, v in zip(mine, values):
        k = d["tagnr"], d["id_hhx"]
        out[k] = out.get(k, 0) + np.asarray(v)
    return np.array([out[k] for k in sorted(out)])


def household_states(mine, home):
    active = np.array([[not asleep(c) for c in d["main"]] for d in mine])
    return grouped(mine, 10 * home.astype(int) + active), active


def load(ctx, act, kind, sub, mine, home, first):
    from demod.datasets.GermanTOU.loader import GTOU
    ld = GTOU(act, clear_parsed_data=True) if first else GTOU(act)
    what = "%s of %s for %s" % (kind, act, sub)
    if act == "Sparse9States":
        return sparse(ctx, ld, sub, mine, home, what)
    if kind == "profiles":
        return profiles(ctx, ld, sub, mine, home, what)
    if act == "4_States":
        days, _ = household_states(mine, home)
        names = days.tolist()
    else:
        names = acts(act, mine, home)
        if kind in ("starts", "lengths", "shares"):
            return stats(ctx, ld, kind, sub, mine, names, what)
    seen = sorted({x for row in names for x in row})
    if kind == "durations" and act != "4_States":
        of = C.DEMOD if act == "DemodActivities_0" else C.BOTTACCIOLI
        more = sum(len(v) for k, v in of.items() if k not in seen)
        if len(seen) + more > 34:
            kind = "tpm"            # too much memory
    fun = ld.load_tpm if kind == "tpm" else ld.load_tpm_with_duration
    for again in (False, True):
        got = [np.asarray(x) for x in fun(sub)]
        labels = got[1 if kind == "tpm" else 2].tolist()
        # the labels may have other numbers, and there may be more of them
        ctx.check(sorted({x for x in labels if x in seen}) == seen, "labels",
                  "%s has the states %s instead of %s" % (what, labels, seen))
        at = {x: labels.index(x) for x in seen}
        days = np.array([[at[x] for x in row] for row in names])
        m = len(labels)
        pdf = got[2 if kind == "tpm" else 3]
        want = np.bincount(days[:, 0], minlength=m) / len(days)
        ctx.check(equal(pdf, want, 1e-12), "first states",
                  "%s starts with %s instead of %s" % (
                      what, show(pdf), show(want)))
        if kind == "tpm":
            want = [(got[0], p23.ref_chain(days, m, "last"), "transitions")]
        else:
            algo = "last" if act == "4_States" else "nothing"
            tpm, dur, _ = p23.ref_semi(days, m, algo, True, False)
            want = [(got[0], tpm, "transitions"), (got[1], dur, "durations")]
            first = p23.ref_first(days, m)
            for s in sorted(set(days[:, 0].tolist())):
                want.append((got[4][s], first[s] / first[s].sum(),
                             "first durations"))
        for a, b, name in want:
            ctx.check(np.shape(a) == np.shape(b) and equal(a, b, 1e-12),
                      name, "%s has other %s than its diaries: %s" % (
                          what, name, differ(a, b)))


def differ(a, b):
    if np.shape(a) != np.shape(b):
        return "shape %s instead of %s" % (np.shape(a), np.shape(b))
    k = np.argwhere(~(np.abs(a - b) <= 1e-12))
    if not len(k):
        return "none"
    k = tuple(int(x) for x in k[0])
    return "%r instead of %r at %s" % (float(a[k]), float(b[k]), k)


def stats(ctx, ld, kind, sub, mine, names, what):
    seen = sorted({x for row in names for x in row})
    at = {x: k for k, x in enumerate(seen)}
    days = np.array([[at[x] for x in row] for row in names])
    for again in (False, True):
        if kind == "shares":
            got = ld.load_activity_probabilities(sub)
            want = {x: np.mean(days == at[x], axis=0) for x in seen}
            out = sum((want[x] for x in ("away", "sleeping") if x in want),
                      np.zeros(T))
            want["active_occupancy"] = 1 - out
            tol = 1e-12
        elif kind == "lengths":
            got = ld.load_activity_duration(sub)
            want = {x: np.zeros(T + 1) for x in seen}
            for (s, n), c in p23.ref_lengths(days).items():
                want[seen[s]][n] += c
            want = {x: v / v.sum() for x, v in want.items()}
        else:
            got = ld.load_daily_activity_starts(sub)
            want, per = {"active_occupancy": np.zeros(5 * T)}, {}
            for t, p, a, b in p23.ref_transitions(days, False):
                k = b, mine[p]["id_hhx"], mine[p]["tagnr"]
                per[k] = per.get(k, 0) + 1
                if seen[b] in ("away", "sleeping"):
                    k = len(seen), k[1], k[2]
                    per[k] = per.get(k, 0) + 1
            seen = seen + ["active_occupancy"]
            for (b, _, _), c in per.items():
                v = want.setdefault(seen[b], np.zeros(5 * T))
                v[c] += 1 / len(days)
        for x, v in want.items():
            ctx.check(x in got, "statistics", "%s has no %s" % (what, x))
            w = np.zeros(max(len(v), len(got[x])))
            g = w.copy()
            w[:len(v)], g[:len(got[x])] = v, got[x]
            if kind == "starts":
                w[0] = g[0] = 0     # days without it: nobody uses them
            ctx.check(equal(g, w, 1e-9), "statistics", "%s: %s has %s instead "
                      "of %s" % (what, x, show(g), show(w)))
        for x in set(got) - set(want):
            ctx.check(x == "active_occupancy" or not np.asarray(
                got[x])[1:].any(), "statistics",
                "%s has %s, which nobody does" % (what, x))


def sparse(ctx, ld, sub, mine, home, what):
    mode = np.zeros((len(mine), T), dtype=int)
    for k, d in enumerate(mine):
        for t in range(T):
            a, b = d["main"][t], d["other"][t]
            if home[k, t]:
                mode[k, t] = not asleep(a) and not asleep(b)
            else:
                mode[k, t] = 7 if any(200 <= c < 400 or 900 <= c <= 940
                                      for c in (a, b)) else 49
    days = grouped(mine, mode)
    moves, left = {}, {}
    for row in days.tolist():
        for t in range(T):
            k = t, row[t], row[(t + 1) % T]
            moves[k] = moves.get(k, 0) + 1
            left[k[:2]] = left.get(k[:2], 0) + 1
    for again in (False, True):
        tpm, labels, activities, pdf = ld.load_sparse_tpm(sub)
        labels = [int(x) for x in labels]
        ctx.check(sorted(labels) == sorted({int(x) for x in days.flat}),
                  "labels", "%s has the states %s" % (what, labels))
        ctx.check([str(x) for x in activities] == ["active", "HWH", "HOH"],
                  "labels", "%s has the activities %s" % (what, activities))
        want = np.array([np.mean(days[:, 0] == x) for x in labels])
        ctx.check(equal(np.asarray(pdf), want, 1e-12), "first states",
                  "%s starts with %s instead of %s" % (
                      what, show(pdf), show(want)))
        got = {(int(t), labels[int(i)], labels[int(j)]): float(v)
               for t, i, j, v in zip(tpm.times, tpm.inds_from, tpm.inds_to,
                                     tpm.values)}
        for k in sorted(set(got) | set(moves)):
            w = moves.get(k, 0) / left.get(k[:2], 1)
            ctx.check(abs(got.get(k, 0) - w) < 1e-9, "transitions",
                      "%s has the probability %s of %s instead of %s" % (
                          what, got.get(k, 0), k, w))


USED = {"Act_TV": "watching_tv", "Act_Cooking": "cooking",
        "Act_Laundry": "laundry", "Act_WashDress": "self_washing",
        "Act_Iron": "ironing", "Act_HouseClean": "cleaning",
        "Act_Dishwashing": "dishwashing", "Act_Elec": "electronics"}


def profiles(ctx, ld, sub, mine, home, what):
    days, _ = household_states(mine, home)
    up = np.minimum(days % 10, days // 10)
    want = {}
    for key, name in USED.items():
        codes = set(C.USES[key])
        doing = grouped(mine, [[a in codes or b in codes for a, b in zip(
            d["main"], d["other"])] for d in mine]) > 0
        want[name] = np.zeros((T, 6))
        for n in range(1, 6):
            some = (up == n).sum(axis=0)
            want[name][:, n] = ((up == n) & doing).sum(axis=0) / np.maximum(
                some, 1)
    for again in (False, True):
        got = ld.load_activity_probability_profiles(sub)
        for name, w in want.items():
            g = np.asarray(got[name])
            ctx.check(g.shape == w.shape and equal(g, w, 1e-12), "profiles",
                      "%s: %s has %s" % (what, name, differ(g, w)
                                         if g.shape == w.shape else g.shape))
        ctx.check(bool((np.asarray(got["active_occupancy"]) == (
            np.arange(6) > 0)).all()) and bool((np.asarray(
                got["level"]) == 1).all()), "profiles",
            "%s: being active is not certain of who is active" % what)
