"""P02: the cache of parsed data is transparent, over any history."""
import builtins
import copy
import datetime
import hashlib
import json
import os
import shutil

from props import p03
from sim import iocommon, iosim, synth, workspace

reset = iocommon.reset
CASES = {"quick": 1500, "thorough": 60000}
QUICK_S, THOROUGH_S = 120, 1500
RULE = ("A case is a history of up to 40 steps over several live loaders of "
        "three datasets (new loader, load, change the returned object, raw data "
        "updated or removed, parser failing, clear a version); non-trivial if "
        "the history and its disk operations are distinct.")
STATES = "distinct (loading method, cached before?, raw present?) met"
ASSUMPTIONS = ["one program at a time (P04 covers several)",
               "a loader that is alive while its version is cleared by "
               "another loader is not used again"]


def prepare(root):
    import demod.datasets.base_loader  # noqa
    import demod.datasets.tou_loader  # noqa
    import demod.datasets.CREST.loader  # noqa
    import demod.datasets.Germany.loader  # noqa
    import demod.datasets.DESTATIS.loader  # noqa
    import pandas  # noqa
    import openpyxl  # noqa
    iocommon.snapshot(root)
    for item in SHIPPED:
        if repr(item) not in _shipped:
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                import warnings
                warnings.simplefilter("ignore")
                try:
                    from sim.core import Ctx
                    online(Ctx({"seed": 0}, root))
                    put_shipped(root)
                    out = json.dumps(["ok", use_shipped(item)])
                except BaseException as e:  # noqa
                    out = json.dumps(["error", repr(e)])
                with os.fdopen(w, "w") as f:
                    f.write(out)
                os._exit(0)
            os.close(w)
            with os.fdopen(r) as f:
                _shipped[repr(item)] = json.loads(f.read())
            os.waitpid(pid, 0)
            reset(root)


# ------------------------------------- the datasets which come with the package

_shipped = {}
SHIPPED_SETS = ("Germany", "DESTATIS")
SHIPPED = [
    ["v0.1", m] + a for m, a in (
        ("load_appliance_dict", []), ("load_fisher_lighting", []),
        ("load_crest_lighting", []), ("load_bulbs", []),
        ("load_installed_bulbs_stats", [{}]),
        ("load_buildings_dict", [{}]), ("load_heating_system_dict", [{}]),
        ("load_thermostat_dict", [{}]))
] + [["vBottaccioli", "load_appliance_dict"]] + [
    ["vBottaccioli", "load_yearly_target_switchons", d] for d in (
        {}, {"n_residents": 2}, {"n_residents": 1, "household_type": 1},
        {"n_residents": 2, "household_type": 3},
        {"n_residents": 5, "household_type": 4})
] + [
    ["destatis", "load_appliance_ownership_dict", d] for d in (
        {"n_residents": 1}, {"n_residents": 2}, {"n_residents": 5},
        {"n_residents": 2, "household_type": 2},
        {"n_residents": 2, "household_type": 3},
        {"n_residents": 1, "hh_work_type": "1_retired"},
        {"n_residents": 4, "household_type": 4,
         "hh_work_type": "2_fulltime"})
] + [
    ["destatis", "load_population_subgroups", d] for d in (
        "resident_number", "household_types")]


def populate(ws):
    iocommon.populate(ws)
    for ds in SHIPPED_SETS:
        src = os.path.join(workspace.REPO, "demod", "datasets", ds)
        shutil.copytree(os.path.join(src, "parsed_data"),
                        os.path.join(ws, "shipped", ds))
        shutil.copytree(os.path.join(src, "raw_data"), os.path.join(
            ws, "demod", "datasets", ds, "raw_data"), dirs_exist_ok=True)


def parsed_dir(root, ds):
    return os.path.join(iocommon.datasets_dir(root), ds, "parsed_data")


def put_shipped(root):
    for ds in SHIPPED_SETS:
        shutil.copytree(os.path.join(root, "shipped", ds),
                        parsed_dir(root, ds), dirs_exist_ok=True)


def online(ctx):
    disk = iosim.Disk(ctx, iocommon.datasets_dir(ctx.root))
    disk.install()
    disk.net = iosim.Network(ctx, p03.content(ctx.root, 0))
    return disk


def use_shipped(item, loaders=None, mutate=False):
    loaders = {} if loaders is None else loaders
    if item[0] not in loaders:
        if item[0] == "destatis":
            from demod.datasets.DESTATIS.loader import Destatis
            loaders[item[0]] = Destatis()
        else:
            from demod.datasets.Germany.loader import GermanDataHerus
            loaders[item[0]] = GermanDataHerus(item[0])
    got = getattr(loaders[item[0]], item[1])(*copy.deepcopy(item[2:]))
    out = synth.norm(got)
    if mutate:
        vandalise(got)
    return out


def generate_shipped(rng):
    kinds = rng.sample(range(len(SHIPPED)), rng.randrange(1, 5))
    ops = []
    for _ in range(rng.randrange(2, 8)):
        r = rng.random()
        if r < .2:
            ops.append(["restart"])
        elif r < .5:
            ops.append(["lose", rng.choice([1, .5]), rng.randrange(1000)])
        ops.append(["load", rng.choice(kinds), rng.random() < .3])
    return {"shipped": ops}


def execute_shipped(case, ctx):
    """Losing parsed files of a dataset of the package changes nothing."""
    import random
    disk = online(ctx)
    ctx.real.update(["dataset loaders", "raw data parsers", "disk"])
    ctx.stub.update(["HTTP servers (simulated network)"])
    put_shipped(ctx.root)
    loaders, lost = {}, False
    for op in case["shipped"]:
        ctx.ev("STEP", op)
        if op[0] == "restart":
            loaders = {}
        elif op[0] == "lose":
            rng = random.Random(op[2])
            for ds in SHIPPED_SETS:
                for d, _, files in sorted(os.walk(parsed_dir(ctx.root, ds))):
                    for f in sorted(files):
                        if rng.random() < op[1]:
                            os.remove(os.path.join(d, f))
            lost = True
            ctx.fault("parsed files lost")
        else:
            item = SHIPPED[op[1]]
            st, want = _shipped[repr(item)]
            ctx.check(st == "ok", "shipped:" + item[1], "%s fails with the "
                      "data of the package: %s" % (item, want))
            st, got = iosim.run_process(disk, iosim.Proc(0), lambda:
                                        use_shipped(item, loaders, op[2]))
            ctx.cover("shipped", repr(item), lost)
            if st == "ok" and synth.same(want, got):
                continue
            if st != "ok" or not (isinstance(want, dict)
                                  and isinstance(got, dict)):
                sig, what = "shipped:" + item[1], repr(got)[:300]
            else:
                keys = sorted(k for k in set(want) | set(got) if not
                              synth.same(want.get(k), got.get(k)))
                sig = "shipped:%s:%s:%s:%s" % (
                    item[0], item[1], "+".join(keys), hashlib.sha1(repr(
                        [(want.get(k), got.get(k)) for k in keys]
                    ).encode()).hexdigest()[:8])
                what = synth.describe_difference(want, got)
            ctx.fail(sig, "%s parsed from the raw data of the package differs "
                     "from the parsed data of the package: %s" % (item, what))


ACTS = ["4_States", "Other", "Sparse9"]


def generate(rng, i, tier):
    if rng.random() < .04:
        return generate_shipped(rng)
    versions = rng.sample([None, "v1", "v2", "v10"], rng.choice([1, 2, 3]))
    kinds = rng.sample(synth.ALL_METHODS, rng.randrange(2, 7))
    subs = rng.sample(synth.SUBGROUPS, rng.randrange(1, 5))
    ops = []
    for _ in range(rng.randrange(3, 40)):
        r = rng.random()
        if r < .2:
            if rng.random() < .2:
                ops.append(["new", "CREST", rng.choice(["v_2.2", "v_2.3.3"]),
                            "4_States"])
                continue
            ops.append(["new", rng.choice(["SynthA", "SynthA", "SynthB"]),
                        rng.choice(versions), rng.choice(ACTS)])
        elif r < .85:
            k = rng.choice(kinds)
            arg = synth.random_arg(rng, k)
            if isinstance(arg, dict):
                arg = dict(rng.choice(subs))
            if k == "load_historical_climate_data":
                arg = [rng.choice([
                    rng.randrange(0, 22 * 60), rng.randrange(0, 22 * 60),
                    23 * 60, rng.randrange(22 * 60, 25 * 60)]),
                    rng.choice([0, 0, 1, 2]),
                       rng.choice([None, None, 0, 60, -330])]
            ops.append(["load", rng.randrange(8), k, arg,
                        rng.random() < .5, rng.random() < .3])
        elif r < .89:
            ops.append(["raw_changes", rng.randrange(1000)])
        elif r < .92:
            ops.append(["raw", rng.random() < .5])
        elif r < .95:
            ops.append(["fail", 1])
        elif r < .97:
            if rng.random() < .2:
                ops.append(["clear", "CREST",
                            rng.choice(["v_2.2", "v_2.3.3"]), None])
                continue
            ops.append(["clear", rng.choice(["SynthA", "SynthB"]),
                        rng.choice([v for v in versions if v] or ["v1"]),
                        None])
        elif r < .98:
            ops.append(["clear", rng.choice(["SynthA", "SynthB"]), None,
                        rng.choice([["no"], ["perhaps", "no"], ["yes"],
                                    ["y", "yes"]])])
        else:
            ops.append(["saved", rng.randrange(8), rng.choice("xyz"),
                        rng.randrange(99), rng.randrange(5)])
    return {"ops": ops, "salt": rng.randrange(1000)}


SHRINK = ["ops", "shipped"]


def vandalise(x):
    """Changes an object in every place it can be changed."""
    import numpy as np
    if isinstance(x, np.ndarray):
        if x.dtype.kind in "fiu":
            x[...] = -7
        elif x.dtype.kind == "b":
            x[...] = ~x
    elif isinstance(x, dict):
        for k in list(x):
            vandalise(x[k])
            if not isinstance(x[k], (dict, np.ndarray)):
                x[k] = -7
        x["vandal"] = 1
    elif isinstance(x, (list, tuple)):
        for v in x:
            vandalise(v)
        if isinstance(x, list):
            x.append(-7)
    elif type(x).__name__ == "SparseTPM":
        x.values[...] = -7


def crest_subgroup(subgroup):
    """Its matrices are of households on week days or at weekends."""
    n = int(hashlib.sha256(repr(sorted(subgroup.items())).encode())
            .hexdigest(), 16)
    return {"n_residents": n % 6 + 1,
            "weekday": [[1, 2, 3, 4, 5], [6, 7]][n // 6 % 2]}


def execute(case, ctx):
    import numpy as np
    if "shipped" in case:
        return execute_shipped(case, ctx)
    disk = iosim.Disk(ctx, iocommon.datasets_dir(ctx.root))
    disk.install()
    ctx.real.update(["dataset loaders", "dataset serialisation", "disk"])
    ctx.stub.update(["raw data parsing (synthetic content)", "user input"])
    states, classes = {}, {}
    for n in ("SynthA", "SynthB", "CREST"):
        states[n] = {"salt": "%s-%d" % (n, case["salt"]), "parsed": {},
                     "raw": True, "scale": "small", "ctx": ctx, "fail": 0}
        classes[n] = synth.make_loader_class(n, states[n], n == "CREST")
    proc = iosim.Proc(0)
    live = []      # (name, version, activity, loader)
    stored = {}    # what the model says is cached: key -> salt it was made of
    saved = {}     # what was saved under a name by the user

    def run(fn):
        st, v = iosim.run_process(disk, proc, fn)
        return st, v

    def create(name, version, act, **kwargs):
        if name == "CREST":
            return classes[name](version[2:], **kwargs)
        return classes[name](act, version=version, **kwargs)

    def new(name, version, act):
        st, v = run(lambda: create(name, version, act))
        if st == "error":
            ctx.fail("new-fails", "a loader cannot be created: %r" % v)
        live.append((name, version, act, v))

    def ident(name, version, act, kind, arg):
        if kind == "load_historical_climate_data":
            arg = None
        return (name, version, kind) + synth.ident(
            kind, None, version, act)[2:] + synth.key_of(
                kind, None, version, act, arg)

    for op in case["ops"]:
        ctx.ev("STEP", op)
        if op[0] == "new":
            new(*op[1:4])
        elif op[0] == "raw_changes":
            for n in states:
                states[n]["salt"] = "%s-%d" % (n, op[1])
        elif op[0] == "raw":
            for n in states:
                states[n]["raw"] = op[1]
        elif op[0] == "fail":
            states["SynthA"]["fail"] = op[1]
        elif op[0] == "clear":
            name, version, answers = op[1:4]
            answers = list(answers or [])
            asked = []

            def fake_input(prompt=""):
                asked.append(prompt)
                if not answers:
                    ctx.fail("asks-again", "still asking after an answer")
                return answers.pop(0)
            was = builtins.input
            builtins.input = fake_input
            st, v = run(lambda: create(
                name, version, "4_States", clear_parsed_data=True))
            builtins.input = was
            if st == "error":
                ctx.fail("clear-fails", "clearing fails: %r" % v)
            ctx.probe("clear")
            if version is not None and asked:
                ctx.fail("asks", "asks before clearing one version")
            if version is None and not asked:
                ctx.fail("does-not-ask", "clears every version unasked")
            erase = version is not None or op[3][-1] == "yes"
            if erase:
                def hit(n, ver):
                    return n == name and (version is None or ver == version)
                for k in [k for k in stored if hit(k[0], k[1])]:
                    del stored[k]
                for k in [k for k in saved if hit(k[0], k[1])]:
                    del saved[k]
                live = [x for x in live if not hit(x[0], x[1])]
            live.append((name, version, "4_States", v))
        elif op[0] == "saved":
            if not live:
                continue
            name, version, act, loader = live[op[1] % len(live)]
            fmt = op[4]
            arr = np.arange(op[3] % 7 + 1) * 1.1 + op[3]
            if op[3] % 3 == 0:
                arr = synth.unusual(op[3], arr)
            elif op[3] % 3 == 1:
                arr = [arr.reshape(1, 1, -1, 1), np.array(arr[0]),
                       np.array(["%r" % x for x in arr]),
                       np.add.outer(arr, arr)][op[3] // 3 % 4]
            if arr.ndim == 0:
                fmt = fmt if fmt < 3 else 0
            fname = "mine_%s%d" % (op[2], fmt)
            if fmt == 0:
                args, want = (arr,), arr
            elif fmt == 1:
                args, want = (arr, True), [arr]
            elif fmt == 2:
                args, want = (arr, False, True), [arr]
            elif fmt == 3:
                args, want = ([arr, arr[::-1]], True), [arr, arr[::-1]]
            else:
                many = [np.concatenate([arr] * (n + 1)) for n in range(12)]
                args, want = (many, False, True), many
            st, v = run(lambda: loader._save_parsed_data(fname, *args))
            if st == "error":
                ctx.fail("save-fails", "saving fails: %r" % v)
            saved[(name, version, fname)] = synth.norm(want)
            for (n, ver, fn), w in sorted(saved.items(), key=repr):
                if (n, ver) == (name, version):
                    st, v = run(lambda: loader._load_parsed_data(fn))
                    if st != "ok" or not synth.same(synth.norm(v), w):
                        ctx.fail("saved-data", "what was saved as %s is not "
                                 "what is loaded: %r" % (fn, v))
        elif op[0] == "load":
            if not live:
                new("SynthA", None, "4_States")
            name, version, act, loader = live[op[1] % len(live)]
            kind, arg, mutate, twice = op[2:6]
            # a time-of-use matrix and a sparse one are different activities
            if kind == "load_tpm" and act.startswith("Sparse"):
                kind = "load_sparse_tpm"
            elif kind == "load_sparse_tpm" and not act.startswith("Sparse"):
                kind = "load_tpm"
            if name == "CREST" and kind == "load_tpm":
                arg = crest_subgroup(arg)
            state = states[name]
            key = ident(name, version, act, kind, arg)
            cached = key in stored
            if not cached:
                willfail = (not state["raw"]) or state["fail"] > 0
            salt = stored.get(key, state["salt"])
            before = sum(state["parsed"].values())
            passed = copy.deepcopy(arg)

            def do():
                if kind == "load_historical_climate_data":
                    t = datetime.datetime(2014, 1, 1) + datetime.timedelta(
                        minutes=arg[0])
                    if arg[2] is not None:
                        t = t.replace(tzinfo=datetime.timezone.utc)
                        t = t.astimezone(datetime.timezone(
                            datetime.timedelta(minutes=arg[2])))
                    return loader.load_historical_climate_data(t)
                return synth.call(loader, kind, passed)
            st, v = run(do)
            made = sum(state["parsed"].values()) - before
            ctx.cover(kind, cached, state["raw"])
            if passed != arg:
                ctx.fail("argument-changed", "%s changed the subgroup it was "
                         "given: %s -> %s" % (kind, arg, passed))
            if kind == "load_historical_climate_data" and arg[0] > 23 * 60:
                # after the last record
                ctx.check(st == "error", "not-refused", "the records end "
                          "before minute %d, yet loading from there gives "
                          "data" % arg[0])
                if made:
                    stored[key] = salt
                ctx.probe("start_after_the_records")
                continue
            if st == "error":
                if cached:
                    ctx.fail("cached-load-fails", "%s(%s) fails although its "
                             "parsed data is there: %r" % (kind, arg, v))
                elif not willfail:
                    ctx.fail("load-fails", "%s(%s) fails: %s: %s" % (
                        kind, arg, type(v).__name__, v))
                ctx.probe("load_refused")
                continue
            if not cached and willfail:
                ctx.fail("out-of-thin-air", "%s(%s) of %s version %s returns "
                         "data which was never parsed" % (
                             kind, arg, name, version))
            if made != (0 if cached else 1):
                ctx.fail("parsed-again" if cached else "not-parsed",
                         "%s(%s): parsed %d times, %s" % (
                             kind, arg, made, "although it was cached"
                             if cached else "expected once"))
            exp = synth.expected(kind, "small", salt, version, act, arg)
            if kind == "load_historical_climate_data":
                t0 = np.datetime64("2014-01-01T00:00:00")
                first = arg[0] // 60
                exp = {k: x[first:] for k, x in exp.items()}
            got = synth.norm(v)
            if not synth.same(exp, got):
                ctx.fail("wrong-data", "%s(%s) of %s version %s (%s): %s" % (
                    kind, arg, name, version,
                    "cached" if cached else "just parsed",
                    synth.describe_difference(exp, got)))
            stored[key] = salt
            ctx.probe("cache_hit" if cached else "cache_miss")
            if mutate:
                vandalise(v)
            if twice:
                again = run(do)
                if again[0] != "ok" or not synth.same(
                        exp, synth.norm(again[1])):
                    ctx.fail("changed-by-user", "%s(%s) returns other data "
                             "after the caller changed what it got" % (
                                 kind, arg))
