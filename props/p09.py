"""P09: a seed gives one simulation, and simulations do not disturb others."""
import json
import os
import random
import subprocess
import sys
import time

import numpy as np

from sim import simenv, zoo
from sim.core import HERE
from sim.simenv import Streams, equal, show, snap

shared, populate, prepare = simenv.shared, simenv.populate, simenv.prepare
CASES = {"quick": 420, "thorough": 24000}
QUICK_S, THOROUGH_S = 100, 1500
CPU_LIMIT = 150
OWN_ZONES = True
RULE = ("A case runs one to three seeded simulations alone, and then again "
        "interleaved by a seeded scheduler, sharing loaders, with neighbours "
        "that are abandoned, another host time zone or a fresh program as "
        "faults; non-trivial if the joint trajectory is new.")
STATES = "distinct (set of simulators, sharing, faults) tuples"
ASSUMPTIONS = ["the random numbers come from numpy.random, seeded by the "
               "user"]
SHRINK = ["k", "subjects", "zone", "abandon", "buffers"]
ZONES = ["Asia/Kolkata", "America/New_York", "Australia/Lord_Howe", "UTC",
         "Europe/Zurich"]


def cycles(rng):
    """Appliances which use the recorded cycles of several types."""
    kind = rng.choice(["occupancy_appliances", "activity_appliances",
                       "probabilistic_appliances"])
    p = zoo.random_params(rng, [kind])
    if "profiles" in p and not p["real"]:
        p["profiles"] = "uniform"
    return p


def generate(rng, i, tier):
    if i % 60 == 7:
        return {"what": "program", "seed2": rng.randrange(1, 10 ** 6),
                "subjects": [zoo.random_params(rng) for _ in range(10)]
                + [cycles(rng) for _ in range(3)],
                "k": rng.choice([1, 3, 10]), "hash": rng.randrange(1, 1000),
                "zone": rng.choice(ZONES)}
    first = zoo.random_params(rng)
    subs = [first]
    for _ in range(rng.choice([0, 1, 1, 2])):
        p = json.loads(json.dumps(first)) if rng.random() < .7 \
            else zoo.random_params(rng)
        if p["kind"] == first["kind"] and rng.random() < .5:
            p2 = zoo.KINDS[p["kind"]].params(rng)
            for key in ("n", "start", "subs", "counts", "res"):
                if key in p and key in p2 and p["real"] == p2["real"]:
                    p[key] = p2[key]
        subs.append(p)
    return {"what": "together", "subjects": subs,
            "k": rng.choice([1, 1, 2, 3, 8, rng.randrange(1, 60)]),
            "share": rng.random() < .7,
            "zone": rng.choice(ZONES) if rng.random() < .3 else None,
            "abandon": rng.random() < .2, "buffers": rng.random() < .4,
            "late": rng.random() < .3}


def shrinks(case):
    from sim.core import generic_shrinks
    for c in generic_shrinks(case, SHRINK):
        if c["subjects"] and c["k"] > 0:
            yield c


class Memo:
    """A loader which keeps what it loaded, as users write them."""

    def __init__(self, data):
        self.__dict__["_data"] = data
        self.__dict__["_kept"] = {}

    def __getattr__(self, name):
        v = getattr(self._data, name)
        if not name.startswith("load_") or not callable(v):
            return v

        def load(*a, **k):
            key = (name, repr(a), repr(sorted(k.items())))
            if key not in self._kept:
                out = v(*a, **k)
                self._kept[key] = out, deep(out)
            return self._kept[key][0]
        return load


def deep(v):
    """A snapshot of loaded data, sparse matrices included."""
    if type(v).__name__ == "SparseTPM":
        return {k: snap(x) for k, x in vars(v).items()
                if isinstance(x, np.ndarray)}
    if isinstance(v, dict):
        return {k: deep(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [deep(x) for x in v]
    return snap(v)


def refill(old, new):
    """The values of new, in the arrays of old where these fit."""
    if isinstance(new, dict):
        return {k: refill(old.get(k) if isinstance(old, dict) else None, v)
                for k, v in new.items()}
    if isinstance(new, (tuple, list)):
        fits = type(old) is type(new) and len(old) == len(new)
        return type(new)(refill(old[i] if fits else None, v)
                         for i, v in enumerate(new))
    if isinstance(new, np.ndarray) and isinstance(old, np.ndarray) and \
            old.shape == new.shape and old.dtype == new.dtype:
        old[...] = new
        return old
    return new


def reuse(s):
    """The user passes the inputs of all steps in the same arrays."""
    inputs, held = s.inputs, [None]

    def again(sim, k):
        held[0] = refill(held[0], inputs(sim, k))
        return held[0]
    s.inputs = again


def build(s, loader=None):
    if loader is not None:
        s.data = lambda: loader
    return s.build()


def state(s, sim):
    return s.view(sim)


def trajectory(p, seed, key, k):
    """A simulation alone: the digests after every step and the last view."""
    np.random.seed((seed + 7919 * key) % 2 ** 32)
    s = zoo.make(p)
    sim = build(s)
    out = [simenv.digest(state(s, sim))]
    for j in range(k):
        s.do_step(sim, j)
        out.append(simenv.digest(state(s, sim)))
    return out, snap(state(s, sim)), sim


def program(text):
    """The entry point of a fresh program."""
    import warnings
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    case = json.loads(text)
    out = [trajectory(p, case["seed2"], j, case["k"])[0]
           for j, p in enumerate(case["subjects"])]
    return json.dumps(out)


def fresh(case, ctx):
    want = []
    for j, p in enumerate(case["subjects"]):
        d, _, sim = trajectory(p, case["seed2"], j, case["k"])
        want.append(d)
        ctx.real.add(type(sim).__name__)
        ctx.ev(p["kind"], d[-1])
    env = dict(os.environ, PYTHONHASHSEED=str(case["hash"]),
               TZ=case["zone"], PYTHONDONTWRITEBYTECODE="1")
    code = ("import sys; sys.path[:0] = [%r, %r]\n"
            "from props import p09\n"
            "sys.stdout.write('\\nRESULT' + p09.program(sys.stdin.read()))"
            % (ctx.root, HERE))
    r = subprocess.run([sys.executable, "-c", code], input=json.dumps(case),
                       env=env, cwd=ctx.root, capture_output=True, text=True)
    ctx.fault("fresh program")
    if r.returncode:
        ctx.fail("program", "the simulations which run in this program fail "
                 "in a fresh one: " + r.stderr[-600:])
        return
    got = json.loads(r.stdout.rsplit("RESULT", 1)[1])
    for p, a, b in zip(case["subjects"], want, got):
        diff = [k for k in range(len(a)) if a[k] != b[k]]
        ctx.check(not diff, "program:%s" % p["kind"],
                  "%s: the same seed gives another simulation in a fresh "
                  "program, from step %s" % (p["kind"], diff[:1]))
        ctx.cover("program", p["kind"])


def execute(case, ctx):
    if case["what"] == "program":
        return fresh(case, ctx)
    k, subs = case["k"], case["subjects"]
    seed = case["seed"]
    sched = random.Random(seed + 3)
    alone = []
    for j, p in enumerate(subs):
        streams = Streams(seed)
        s = zoo.make(p)
        sim = streams.run(j, lambda: build(s))
        views = [snap(state(s, sim))]
        for q in range(k):
            streams.run(j, lambda: s.do_step(sim, q))
            views.append(snap(state(s, sim)))
        alone.append(views)
        ctx.real.add(type(sim).__name__)
        step = getattr(sim, "step_size", None)
        ctx.sim_seconds += 2 * k * (step.total_seconds() if step else 60)
    if case["zone"]:
        os.environ["TZ"] = case["zone"]
        time.tzset()
        ctx.fault("host time zone")
    streams = Streams(seed)
    loaders = {}
    subjects, sims = [], []
    for p in subs:
        s = zoo.make(p)
        loader = None
        if case["share"] and hasattr(s, "data"):
            d = s.data()
            key = json.dumps([p["kind"], type(d).__name__, p["salt"],
                              p["real"], p.get("mode"), p.get("n_times"),
                              p.get("relabel"), p.get("previous"),
                              p.get("n_lab"), p.get("n_dur"),
                              p.get("vary"), p.get("ninja"),
                              (p.get("start") or {}).get("t", "")[:4]])
            loader = loaders.setdefault(key, Memo(d))
        if case["buffers"]:
            reuse(s)
        subjects.append((s, loader))
        sims.append(None)
    if case["buffers"]:
        ctx.fault("inputs in the same arrays")
    at = [-1] * len(subs)           # -1: to be built
    dead = sched.randrange(len(subs)) if case["abandon"] and len(subs) > 1 \
        else None
    limit = [k] * len(subs)
    if dead is not None:
        limit[dead] = sched.randrange(k)
        ctx.fault("abandoned neighbour")
    if not case["late"]:
        for j, (s, loader) in enumerate(subjects):
            sims[j] = streams.run(j, lambda: build(s, loader))
            at[j] = 0
    while True:
        todo = [j for j in range(len(subs)) if at[j] < limit[j]]
        if not todo:
            break
        j = sched.choice(todo)
        s, loader = subjects[j]
        if at[j] < 0:
            sims[j] = streams.run(j, lambda: build(s, loader))
            at[j] = 0
        else:
            streams.run(j, lambda: s.do_step(sims[j], at[j]))
            at[j] += 1
            given, kept = s.last_inputs
            ctx.check(equal(given, kept), "inputs:%s" % subs[j]["kind"],
                      "%s: the arguments of the step were modified: %s "
                      "instead of %s" % (subs[j]["kind"], show(given),
                                         show(kept)))
        ctx.ev(j, at[j])
        if sched.random() < .3 or at[j] == limit[j]:
            compare(ctx, subs, j, at[j], s.view(sims[j]), alone)
    for j, (s, loader) in enumerate(subjects):
        if sims[j] is None:
            continue
        view = s.view(sims[j])
        compare(ctx, subs, j, at[j], view, alone)
        ctx.ev(subs[j]["kind"], simenv.digest(view))
        for x, kept in s.given:
            ctx.check(equal(x, kept), "given:%s" % subs[j]["kind"],
                      "%s: an argument of the constructor was modified: %s "
                      "instead of %s" % (subs[j]["kind"], show(x),
                                         show(kept)))
    for loader in loaders.values():
        for (name, a, _), (got, kept) in loader._kept.items():
            ctx.check(equal(deep(got), kept), "loaded:%s" % name,
                      "the data loaded by %s%s was modified: %s instead of "
                      "%s" % (name, a, show(got), show(kept)))
            ctx.probe("loaded items")
    ctx.cover(sorted({p["kind"] for p in subs}), bool(loaders),
              case["zone"] is not None, dead is not None, case["late"])


def compare(ctx, subs, j, n, view, alone):
    want = alone[j][n]
    for name in want:
        ctx.check(equal(view.get(name), want[name]),
                  "disturbed:%s.%s" % (subs[j]["kind"], name),
                  "%s beside %s: after %d steps %s is %s instead of %s" % (
                      subs[j]["kind"], [p["kind"] for i, p in enumerate(subs)
                                        if i != j], n, name,
                      show(view.get(name)), show(want[name])))
