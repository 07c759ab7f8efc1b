"""P08: the logger records exactly what the simulator shows."""
import io
import contextlib
import random

import numpy as np

from sim import simenv, zoo
from sim.simenv import Rng, equal, show, snap

shared, populate, prepare = simenv.shared, simenv.populate, simenv.prepare
CASES = {"quick": 700, "thorough": 40000}
QUICK_S, THOROUGH_S = 100, 1500
CPU_LIMIT = 100
RULE = ("A case runs one seeded simulation twice: with a logger of seeded "
        "attributes and aggregations, cleared, read, copied and plotted on a "
        "seeded schedule, and without one while every quantity is read at "
        "every step; non-trivial if the recorded history is new.")
STATES = "distinct (simulator, attribute, aggregated, dictionary) tuples"
ASSUMPTIONS = ["the random numbers come from numpy.random",
               "sums are compared up to 1e-9"]
SHRINK = ["k", "ops", "p.n"]


class Own(zoo.Subject):
    """A simulator of the user, which changes its arrays in place."""

    attributes = ("places", "both", "factor")

    def build(self, logger=None):
        from demod.simulators.base_simulators import (
            Simulator, TimeAwareSimulator)
        salt, aware = self.p["salt"], self.p["salt"] % 2

        class Mine(TimeAwareSimulator if aware else Simulator):
            def __init__(self, n, **kw):
                super().__init__(n, **kw)
                self.factor = -1.5
                self.places = np.arange(n) * 10
                self.both = {"x": self.places, "y": -.5 * np.ones(n),
                             7: np.zeros((n, 2), dtype=int)}
                self.initialize_starting_state(*([] if aware else [
                    salt // 2 % 3]))

            def step(self):
                self.places += np.random.randint(-9, 5, len(self.places))
                self.both["y"] *= 1.25
                self.both[7][:, 1] -= self.places
                self.factor = -self.factor * 1.1
                super().step()

            def get_places(self):
                return self.places

            def get_both(self):
                return self.both

            def get_table(self):
                return self.both[7]

            def get_factor(self):
                return self.factor
        return Mine(self.p["n"], **{} if logger is None else {
            "logger": logger})


def make(p):
    return Own(p) if p["kind"] == "own" else zoo.make(p)


def generate(rng, i, tier):
    p = zoo.random_params(rng)
    if rng.random() < .08:
        p = {"kind": "own", "n": rng.choice([1, 2, 5, 60]),
             "salt": rng.randrange(10 ** 6)}
    k = rng.choice([0, 1, 1, 2, 3, rng.randrange(40)])
    return {"p": p, "k": k,
            "agg": rng.choice(["yes", "no", "list", "list"]),
            "form": rng.choice(["list", "list", "args"]),
            "take": rng.choice([1, 2, 3, 99]),
            "ops": sorted([rng.randrange(k + 1), rng.choice(
                ["clear", "clear", "clear one", "get", "print", "copy",
                 "unknown"])]
                for _ in range(rng.choice([0, 0, 1, 2, 4]))),
            "again": rng.random() < .3, "add": rng.random() < .3,
            "plot": rng.choice(["plot", "column"])
            if rng.random() < .06 else None,
            "plot_sum": rng.random() < .5}


def shrinks(case):
    from sim.core import generic_shrinks
    for c in generic_shrinks(case, SHRINK):
        if c["p"]["n"] != 0 and all(o[0] <= c["k"] for o in c["ops"]):
            yield c


def loggable(v):
    if isinstance(v, dict):
        return bool(v) and all(loggable(x) for x in v.values())
    return isinstance(v, (np.ndarray, float, int, np.generic)) and \
        np.asarray(v).dtype != object


def history(s, case, seed):
    """What a run without a logger shows after every step."""
    np.random.seed(seed)
    sim = s.build()
    out = []
    for k in range(case["k"] + 1):
        v = {n: snap(x) for n, x in s.view(sim, s.names(sim)).items()
             if n.startswith("get_")}
        v["current_time_step"] = sim.current_time_step
        v["n_households"] = sim.n_households
        if hasattr(sim, "current_time"):
            v["current_time"] = sim.current_time
        for n in getattr(s, "attributes", ()):
            v[n] = snap(getattr(sim, n))
        out.append(v)
        if k < case["k"]:
            s.do_step(sim, k)
    return out


def record(v, agg):
    if isinstance(v, dict):
        return {k: record(x, agg) for k, x in v.items()}
    return np.sum(v) if agg else np.asarray(v)


def expected(values, name, agg):
    if name == "current_time":
        return [v[name] for v in values]
    if values and isinstance(values[0][name], dict):
        return {k: np.asarray([record(v[name][k], agg) for v in values])
                for k in values[0][name]}
    return np.asarray([record(v[name], agg) for v in values])


def same(got, want):
    if isinstance(want, dict):
        return isinstance(got, dict) and got.keys() == want.keys() and all(
            same(got[k], want[k]) for k in want)
    if isinstance(want, list):
        return list(got) == want
    if len(want) == 0:
        return not isinstance(got, dict) and len(got) == 0
    return equal(got, want, 1e-9)


def pick(values, look, case):
    names = [n for n, v in values[0].items()
             if n == "current_time" or loggable(v)]
    # a dictionary must have the same keys all along to be recorded
    names = [n for n in names if not isinstance(values[0][n], dict) or all(
        v[n].keys() == values[0][n].keys() for v in values)]
    names = sorted(look.sample(names, min(case["take"], len(names))),
                   key=lambda x: look.random())
    if case["agg"] == "list":
        agg = [n != "current_time" and look.random() < .5 for n in names]
        given = list(agg)
    else:
        given = case["agg"] == "yes"
        agg = [given and n != "current_time" for n in names]
    return names, agg, given


def execute(case, ctx):
    from demod.simulators.base_simulators import SimLogger
    look = random.Random(case["seed"] + 1)
    kind = case["p"]["kind"]
    s = make(case["p"])
    seed = case["seed"] % 2 ** 32
    ctx.ev(kind, case["k"])
    values = history(s, case, seed)
    names, agg, given = pick(values, look, case)
    if not names:
        return
    lists = list(names), list(given) if isinstance(given, list) else given
    if case["form"] == "args":
        mine = SimLogger(*lists[0], aggregated=lists[1])
    else:
        mine = SimLogger(lists[0], aggregated=lists[1])
    ops = {}
    for at, op in case["ops"]:
        ops.setdefault(at, []).append(op)

    def compare(log, values, since, last, what):
        """Records of the states from `since` to before `last`."""
        for n, a in zip(names, agg):
            first = since[n]
            got = log.get(n)
            vals = values[first:last] if last > first else []
            want = expected(vals, n, a)
            if last - first == 0 and isinstance(got, dict):
                got = [x for y in got.values() for x in y]
            ctx.check(same(got, want), "record:%s.%s" % (kind, n),
                      "%s: %s%s recorded %s from step %d to %d gives %s "
                      "instead of %s" % (kind, n, " (sum)" if a else "", what,
                                         first, last, show(got), show(want)))
            ctx.cover(kind, n, a, isinstance(want, dict))

    def run(sd, values):
        np.random.seed(sd)
        sim = s.build(logger=mine)
        first = dict.fromkeys(names, 0)
        for k in range(case["k"] + 1):
            for op in ops.get(k, ()):
                ctx.probe(op)
                ctx.ev(kind, k, op)
                if op == "clear":
                    if look.random() < .5:
                        sim.logger.clear()
                    else:
                        sim.logger.clear(list(names))
                    first = dict.fromkeys(names, k + 1)
                elif op == "clear one":
                    n = look.choice(names)
                    sim.logger.clear(n if look.random() < .5 else [n])
                    first[n] = k + 1
                elif op == "get":
                    compare(sim.logger, values, first, k, "so far")
                elif op == "print":
                    with contextlib.redirect_stdout(io.StringIO()) as f:
                        sim.logger.print()
                    ctx.check(all(n in f.getvalue() for n in names), "print",
                              "print does not show every attribute")
                elif op == "copy":
                    c = sim.logger.copy()
                    ctx.check(all(len(c.get(n)) == 0 for n in names),
                              "copy", "a copy of a logger has records")
                elif op == "unknown":
                    for f in (sim.logger.get, sim.logger.clear):
                        try:
                            f("get_nothing")
                        except ValueError:
                            continue
                        ctx.fail("unknown", "an unknown attribute is accepted")
            if k < case["k"]:
                s.do_step(sim, k)
        return sim, first

    sim, first = run(seed, values)
    ctx.real.update([type(sim).__name__, "SimLogger"])
    ctx.ev(kind, names, agg, simenv.digest(
        [sim.logger.get(n) for n in names if n != "current_time"]))
    compare(sim.logger, values, first, case["k"], "by the logger")
    ctx.sim_seconds += 2 * case["k"] * step_of(sim)
    if len(names) == 1:
        ctx.check(equal(sim.logger.get(), sim.logger.get(names[0])),
                  "single", "get() of a single attribute differs")
    ctx.check(lists == (names, given), "lists", "the lists with which a "
              "logger was made became %s" % (lists,))
    # what the user does with the lists later does not matter
    lists[0].reverse()
    if isinstance(lists[1], list):
        lists[1].append(True)
    ctx.check(mine is not sim.logger and all(
        len(mine.get(n)) == 0 for n in names), "shared",
        "the logger given by the user was used itself")
    if case["again"]:
        # the same logger given to a second simulation
        other = history(s, case, seed + 1)
        if all(n in v and (not isinstance(v[n], dict) or v[n].keys() ==
                           other[0][n].keys())
               for v in other for n in names):
            ctx.probe("second simulation")
            sim2, first2 = run(seed + 1, other)
            compare(sim2.logger, other, first2, case["k"],
                    "by the second logger")
        compare(sim.logger, values, first, case["k"],
                "before a second simulation used the logger")
    if kind == "own" and case["k"] and case["seed"] % 2:
        restart(case, ctx, s, sim, names, compare)
        return
    if len(set(first.values())) > 1:
        ctx.probe("some attributes cleared")
        return
    at = first[names[0]]
    if case["plot"] and len(values[at:case["k"]]) > 0:
        plot(case, ctx, sim.logger, names, agg, values[at:case["k"]])
    if case["add"]:
        add(case, ctx, sim, values, first, names, agg, compare)


def restart(case, ctx, s, sim, names, compare):
    """A simulation which its user starts again is recorded from there."""
    ctx.probe("started again")
    seed, warm = case["seed"] % 2 ** 32, case["seed"] % 3
    if hasattr(sim, "current_time"):
        again = {}
    else:
        again = {"start_time_step": warm} if warm else {}
    np.random.seed(seed)
    twin, values = s.build(), []
    for k in range(case["k"]):
        s.do_step(twin, k)

    def look():
        v = {n: snap(x) for n, x in s.view(twin, s.names(twin)).items()
             if n.startswith("get_")}
        v["current_time_step"] = twin.current_time_step
        v["n_households"] = twin.n_households
        if hasattr(twin, "current_time"):
            v["current_time"] = twin.current_time
        for n in s.attributes:
            v[n] = snap(getattr(twin, n))
        values.append(v)
    state = np.random.get_state()
    twin.initialize_starting_state(**again)
    look()
    for k in range(case["k"]):
        s.do_step(twin, k)
        look()
    np.random.set_state(state)
    sim.initialize_starting_state(**again)
    for k in range(case["k"]):
        s.do_step(sim, k)
    compare(sim.logger, values, dict.fromkeys(names, 0), case["k"],
            "after the simulation was started again")


def step_of(sim):
    size = getattr(sim, "step_size", None)
    return size.total_seconds() if size is not None else 60


def add(case, ctx, sim, values, first, names, agg, compare):
    """Merging with the logger of another simulation."""
    from demod.simulators.base_simulators import SimLogger, Simulator

    class Counter(Simulator):
        def get_squares(self):
            return np.arange(3) * self.current_time_step ** 2

    def counted(steps):
        c = Counter(3, logger=SimLogger(
            ["n_households", "get_squares"], aggregated=[True, False]))
        c.initialize_starting_state()
        for _ in range(steps):
            c.step()
        return c.logger
    at = first[names[0]]
    n = case["k"] - at       # records that can be read
    if n < 0:
        return
    other = counted(n)
    mine = ["n_households", "get_squares"]
    if at == 0 and "n_households" not in names:
        ctx.probe("added")
        total = sim.logger + other
        compare(total, values, first, case["k"], "after an addition")
        want = [[0, j * j, 2 * j * j] for j in range(n)]
        ctx.check(total.get("get_squares").tolist() == want, "added",
                  "adding loggers gives %s instead of %s" % (
                      show(total.get("get_squares")), show(want)))
        if case["plot"] and n > 0:
            plot(case, ctx, total, names + mine, agg + [True, False],
                 [dict(v, n_households=3, get_squares=np.arange(3) * j * j)
                  for j, v in enumerate(values[:case["k"]])])
        c = total.copy()
        ctx.check(list(c.attributes_list) == names + mine and
                  list(c.aggregated) == agg + [True, False] and
                  all(len(c.get(x)) == 0 for x in names), "copy",
                  "a copy of merged loggers records other things")
    try:
        sim.logger + counted(n + 1 + case["seed"] % 3)
    except ValueError:
        return
    ctx.fail("added", "loggers of different lengths were added")


def plot(case, ctx, log, names, agg, values):
    """Every line of a plot shows recorded values."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    column = case["plot"] == "column"
    shown = [(n, a) for n, a in zip(names, agg) if n != "current_time"]
    if not shown or any(np.ndim(x) > 1 for n, a in shown for x in (
            values[0][n].values() if isinstance(values[0][n], dict)
            else [values[0][n]])):
        return
    lines = []
    real = plt.show

    def show_(*a, **k):
        for ax in plt.gcf().axes:
            lines.append([ln.get_ydata() for ln in ax.lines])
        plt.close("all")
    plt.show = show_
    try:
        if column:
            log.plot_column(aggregate=case["plot_sum"])
        else:
            log.plot(aggregate=case["plot_sum"])
    finally:
        plt.show = real
        plt.close("all")
    ctx.probe("plotted")
    ctx.check(len(lines) == len(shown), "plot", "%d plots of %d attributes"
              % (len(lines), len(shown)))
    for (n, a), got in zip(shown, lines):
        want = expected(values, n, a)
        want = list(want.values()) if isinstance(want, dict) else [want]
        out = []
        for w in want:
            if w.ndim == 1:
                out.append(w)
            elif case["plot_sum"]:
                out.append(w.sum(axis=1))
            else:
                out += list(w.T)
        key = sorted
        ctx.check(len(out) == len(got) and equal(
            key([[float(y) for y in x] for x in out]),
            key([[float(y) for y in x] for x in got]), 1e-9),
            "plot:" + n, "the plot of %s shows %s instead of %s" % (
                n, show(got), show(out)))
