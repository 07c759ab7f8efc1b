"""P03: downloaded datasets are complete, of the right item, and are fetched
only when they are missing or an update is asked for."""
import copy
import datetime
import io
import os
import random
import re
import shutil
import zipfile

from sim import iocommon, iosim, synth, workspace

CASES = {"quick": 1500, "thorough": 60000}
QUICK_S, THOROUGH_S = 200, 1800
RULE = ("A case is one to five simulated program lives which use one "
        "downloaded dataset through a simulated network (refused, slow, cut, "
        "reset, HTTP errors, several chunk sizes) and a faulty disk, with the "
        "server's content changing between lives, then a clean retry and a "
        "life without network; non-trivial if the trace is new.")
STATES = "distinct (dataset, injected faults, outcome, requests) of a life"
ASSUMPTIONS = [
    "the server announces the length of what it sends, or sends it chunked",
    "the archives and workbooks of the server are valid",
]

TARGETS = ["ninja", "ninja", "ninja", "gtou", "gtou", "crest", "crest",
           "tracebase", "tracebase", "germany", "destatis"]
_ref = {}


def populate(ws):
    workspace.copy_code(ws)
    serve(ws)


def serve(ws):
    repo = workspace.REPO
    for ds, f in (("Germany", "data_v0.1.xlsx"),
                  ("DESTATIS", "appliances_penetration.ods")):
        # what the server will serve
        src = os.path.join(repo, "demod", "datasets", ds, "raw_data", f)
        if os.path.isfile(src):
            shutil.copyfile(src, os.path.join(ws, f))
        have = os.path.join(ws, "demod", "datasets", ds, "raw_data", f)
        if os.path.isfile(have):
            os.remove(have)


def reset(root):
    iocommon.reset(root)


# ------------------------------------------------------------ server content

def ninja_body(weight, version):
    salt = version * 2 + (weight == "land_area")
    return workspace.ninja_csv(salt, days=12, start="2015-01-01").encode()


def gtou_arrays(activity, version):
    import numpy as np
    r = np.random.RandomState(version * 7 + len(activity))
    tpm = r.randint(1, 999, (144, 3, 3)) / 64.
    return {"tpm": tpm, "labels": np.array(["a", "b", "c%d" % version]),
            "initial_pdf": r.randint(1, 99, 3) / 8.}


def gtou_body(activity, version):
    import numpy as np
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w") as z:
        def add(name, data):
            z.writestr(zipfile.ZipInfo(name, (2021, 1, 1, 0, 0, 0)), data)
        add("a_legend.json", b"{}" * 50)
        f = io.BytesIO()
        np.savez(f, **gtou_arrays(activity, version))
        add("n_residents_1.npz", f.getvalue())
        add("z_legend.json", b"{}" * 700)
    return out.getvalue()


def crest_body(version_name, version):
    from openpyxl import Workbook
    wb = Workbook()
    ws = wb.active
    ws.title = "ActivityStats"
    col = "Probability of dwelling having this number of residents"
    if version_name == "2.3.3":
        col += ", in the UK"
    ws.cell(12, 2, "Number of residents")
    ws.cell(12, 3, col)
    for k in range(5):
        ws.cell(13 + k, 2, k + 1)
        ws.cell(13 + k, 3, (k + 1 + version) / 64)
    out = io.BytesIO()
    wb.save(out)
    # without the time at which it was made
    fixed = io.BytesIO()
    with zipfile.ZipFile(out) as a, zipfile.ZipFile(
            fixed, "w", zipfile.ZIP_DEFLATED) as b:
        for name in a.namelist():
            data = a.read(name)
            if name == "docProps/core.xml":
                data = re.sub(rb">[0-9-]+T[0-9:.]+Z<",
                              b">2021-01-01T00:00:00Z<", data)
            b.writestr(zipfile.ZipInfo(name, (2021, 1, 1, 0, 0, 0)), data)
    return fixed.getvalue()


TRACES = (("Dishwasher", "dev_995BAC_2012.06.11.csv"),
          ("Dishwasher", "dev_7.csv"), ("Unknown", "dev_1.csv"),
          ("WaterKettle", "dev_2.csv"), ("Iron", "dev_D337C2_2011.12.26.csv"))


def trace(dev, version):
    """The records (second of the day, power) of a device."""
    r = random.Random("%s %d" % (dev, version))
    t, out = 3600 * 3 + r.randrange(3600), []
    for k in range(400):
        idle = k < 40 or k > 350
        out.append((t, r.randrange(5) if idle else
                    (k * (3 + version)) % 50 + 7 + version))
        t += r.randrange(1, 14)
    return out


def tracebase_body(version):
    out = io.BytesIO()
    with zipfile.ZipFile(out, "w") as z:
        for app, dev in TRACES:
            rows = []
            for sec, w in trace(dev, version):
                t = datetime.datetime(2012, 6, 11) + datetime.timedelta(
                    seconds=sec)
                rows.append("%s;%d;%d" % (
                    t.strftime("%d/%m/%Y %H:%M:%S"), w, 2 * w + 1))
            z.writestr(zipfile.ZipInfo(
                "tracebase-master/complete/%s/%s" % (app, dev),
                (2021, 1, 1, 0, 0, 0)), "\n".join(rows) + "\n")
    return out.getvalue()


def mean_powers(dev, version, step):
    """The mean power of each whole step, and the energy of the rest."""
    rows = trace(dev, version)
    power = []
    for (t0, w0), (t1, w1) in zip(rows, rows[1:]):
        power += [w0 + (w1 - w0) * k / (t1 - t0) for k in range(t1 - t0)]
    n = len(power) // step
    return ([sum(power[k * step:(k + 1) * step]) / step for k in range(n)],
            sum(power[n * step:]))


def wrong_trace(arg, version, value):
    """What is wrong in the profiles which were loaded."""
    kind, step = arg.split("@")
    kinds = {"Dishwasher": "dishwasher", "WaterKettle": "kettle",
             "Iron": "iron"}
    value = dict(value)
    want = sorted(set(kinds.values()) - (
        {"kettle"} if kind == "switchedON" else set()))
    if sorted(value) != want:
        return "profiles of %s instead of %s" % (sorted(value), want)
    for app, dev in TRACES:
        if app not in kinds:
            continue
        have = value.get(kinds[app], {})
        if kind == "switchedON" and dev in ("dev_7.csv", "dev_2.csv"):
            if dev in have:
                return "the unsuitable profile " + dev
            continue
        if dev not in have:
            return "no profile " + dev
        got = [float(x) for x in have[dev]]
        full, rest = mean_powers(dev, version, int(step))
        if kind == "full":
            n = len(full)
            if any(abs(x - y) > 1e-6 for x, y in zip(got, full)) or not (
                    n <= len(got) <= n + 2) or abs(
                    sum(got[n:]) * int(step) - rest) > 1e-6:
                return "the profile %s with steps of %s s is %s..." % (
                    dev, step, got[:3])
            continue
        full = full + [rest / int(step)]
        on = [k for k, x in enumerate(full) if x > 6]
        cycle = full[on[0]:on[-1] + 1]
        if len(cycle) != len(got) or any(
                abs(x - y) > 1e-6 for x, y in zip(got, cycle)):
            return "the cycle %s with steps of %s s is %s... of %d" % (
                dev, step, got[:3], len(got))


_bodies = {}


def content(root, version):
    """What the server answers, by address."""
    def get(url):
        key = (url, version)
        if key not in _bodies:
            _bodies[key] = make(url)
        return _bodies[key]

    def make(url):
        name = url.rsplit("/", 1)[-1]
        if "renewables.ninja" in url:
            for w in ("population", "land_area"):
                if name == ("ninja_weather_country_DE_merra-2_%s_weighted.csv"
                            % w):
                    return ninja_body(w, version)
            return None
        if "GermanTOU/parsed_data/" in url:
            act = name[:-4]
            return gtou_body(act, version) if act in (
                "4_States", "DemodActivities_0", "Sparse9States",
                "Bottaccioli2018") else None
        if "lboro" in url:
            return crest_body({"4969096": "2.2", "22693271": "2.3.3"}[name],
                              version)
        if "areinhardt/tracebase" in url:
            return tracebase_body(version)
        if name in ("data_v0.1.xlsx", "appliances_penetration.ods"):
            with open(os.path.join(root, name), "rb") as f:
                return f.read()
        return None
    return get


# ---------------------------------------------------------- what a user does

START = datetime.datetime(2015, 1, 2, 3, 20)


def use(target, arg, update, load=True):
    """One use of a dataset.  Returns plain Python content."""
    if target == "ninja":
        from demod.datasets.RenewablesNinja.loader import \
            NinjaRenewablesClimate
        ld = NinjaRenewablesClimate("germany", update_raw_data=update,
                                    weighted_type=arg)
        return load and synth.norm(ld.load_historical_climate_data(START))
    if target == "gtou":
        from demod.datasets.GermanTOU.loader import GTOU
        ld = GTOU(arg, clear_parsed_data=update) if update else GTOU(arg)
        return load and synth.norm(list(ld.load_tpm({"n_residents": 1})))
    if target == "crest":
        from demod.datasets.CREST.loader import Crest
        ld = Crest(arg)
        return load and synth.norm(list(ld.load_population_subgroups()))
    if target == "tracebase":
        from demod.datasets.tracebase.loader import Tracebase
        kind, step = arg.split("@")
        kw = {} if step == "60" else {
            "step_size": datetime.timedelta(seconds=int(step))}
        ld = Tracebase(update_raw_data=update, **kw)
        return load and synth.norm(ld.load_real_profiles_dict(kind))
    if target == "germany":
        from demod.datasets.Germany.loader import GermanDataHerus
        ld = GermanDataHerus()
        if not load:
            return False
        out = ld.load_appliance_dict() if arg == "appliances" else \
            ld.load_historical_climate_data(START)
        return synth.norm(out)
    from demod.datasets.DESTATIS.loader import Destatis
    ld = Destatis()
    if not load:
        return False
    return synth.norm(ld.load_appliance_ownership_dict({"n_residents": 2}))


def args_of(rng, target):
    return {
        "ninja": lambda: rng.choice(["population", "land_area"]),
        "gtou": lambda: rng.choice(["4_States", "DemodActivities_0"]),
        "crest": lambda: rng.choice(["2.2", "2.3.3"]),
        "tracebase": lambda: rng.choice(["full@", "switchedON@"]),
        "germany": lambda: rng.choice(["appliances", "climate"]),
        "destatis": lambda: None,
    }[target]()


def independent(target, arg, version):
    """Expected content worked out without the code under test."""
    if target == "ninja":
        rows = [r.split(",") for r in ninja_body(arg, version).decode()
                .strip().split("\n")[3:]]
        # from the last hour before the start
        return {"temps": [float(r[2]) for r in rows][27:]}
    return None


VERSIONS = 3


def prepare(root, targets=TARGETS):
    import demod.datasets.Germany.loader  # noqa
    import demod.datasets.tracebase.loader  # noqa
    import demod.datasets.CREST.loader  # noqa
    import pandas as pd
    import openpyxl  # noqa
    iocommon.snapshot(root)
    for t in targets:
        if (t, None, 0) in _ref:
            continue
        for a in {"ninja": ["population", "land_area"],
                  "gtou": ["4_States", "DemodActivities_0"],
                  "crest": ["2.2", "2.3.3"],
                  "tracebase": [k + "@" + x for x in STEPS
                                for k in ("full", "switchedON")],
                  "germany": ["appliances", "climate"],
                  "destatis": [None]}[t]:
            for v in range(VERSIONS if t not in ("germany", "destatis")
                           else 1):
                if (t, a, v) in _ref:
                    continue
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    import json
                    import random
                    import warnings
                    warnings.simplefilter("ignore")
                    try:
                        from sim.core import Ctx
                        ctx = Ctx({"seed": 0}, root)
                        disk = iosim.Disk(ctx, iocommon.datasets_dir(root))
                        disk.install()
                        disk.net = iosim.Network(ctx, content(root, v))
                        data = json.dumps(["ok", use(t, a, False)]).encode()
                    except BaseException:  # noqa
                        import traceback
                        data = json.dumps(
                            ["error", traceback.format_exc()]).encode()
                    with os.fdopen(w, "wb") as f:
                        f.write(data)
                    os._exit(0)
                os.close(w)
                with os.fdopen(r, "rb") as f:
                    data = f.read()
                os.waitpid(pid, 0)
                import json
                st, val = json.loads(data)
                _ref[t, a, v] = (st, val)
                reset(root)


# ------------------------------------------------------------------ the cases

STEPS = ["60", "60", "300", "1", "90"]


def net_fault(rng):
    k = rng.choice(["none", "none", "unreachable", "timeout", "http",
                    "reset", "reset", "truncate", "truncate", "chunked"])
    f = {"kind": k}
    if k == "http":
        f["code"] = rng.choice([403, 404, 429, 500, 503])
    if k in ("reset", "truncate"):
        f["frac"] = rng.choice([0.0, .01, .3, .7, .95, .999, .999999])
        f["chunked"] = rng.random() < .25
    if k == "chunked":
        f = {"kind": "none", "chunked": True}
    return f


def generate(rng, i, tier):
    from props.p01 import _fault
    target = rng.choice(TARGETS)
    if target in ("germany", "destatis") and rng.random() < .6:
        target = "ninja"
    version, lives, step = 0, [], rng.choice(STEPS)
    mixed = target == "tracebase" and rng.random() < .3
    for _ in range(rng.choice([1, 1, 2, 3, 4, 5])):
        if target not in ("germany", "destatis") and rng.random() < .3:
            version = (version + 1) % VERSIONS
        n = 2 if rng.random() < .12 else 1
        arg = args_of(rng, target)
        if mixed:
            step = rng.choice(STEPS)
        lives.append({
            "arg": arg + step if target == "tracebase" else arg, "server": version,
            "update": target in ("ninja", "gtou", "tracebase") and n == 1
            and rng.random() < .3 and not mixed,
            "net": [net_fault(rng) for _ in range(rng.choice([0, 1, 1, 3]))],
            "disk": [_fault(rng) for _ in range(rng.choice([0, 0, 1, 2]))],
            "programs": n})
        if rng.random() < .12:
            # a loader is made, but nothing is loaded
            lives[-1].update(update=False, open=True)
    return {"target": target, "lives": lives,
            "chunk": rng.choice([0, 0, 1000, 333])}


def shrinks(case):
    from sim.core import generic_shrinks
    yield from generic_shrinks(case, ["lives"])
    for k, life in enumerate(case["lives"]):
        for field in ("net", "disk", "update"):
            for c in generic_shrinks(life, [field]):
                new = copy.deepcopy(case)
                new["lives"][k] = c
                yield new
        if life["programs"] > 1:
            new = copy.deepcopy(case)
            new["lives"][k]["programs"] = 1
            yield new
    if case["chunk"]:
        yield dict(copy.deepcopy(case), chunk=0)


def key_of(target, arg):
    """Items with the same key come with the same download."""
    return "all" if target in ("germany", "tracebase") else arg


def execute(case, ctx):
    target = case["target"]
    for (t, a, v), (st, val) in _ref.items():
        if t == target and st != "ok":
            ctx.fail("download-fails", "with a working network and disk, "
                     "using %s (%s) fails: %s" % (t, a, val[-1500:]))
    refs = {(a, v): val for (t, a, v), (st, val) in _ref.items()
            if t == target}
    if target == "ninja":
        for (a, v), val in refs.items():
            temps = independent(target, a, v)["temps"]
            got = [float(x) for x in val["outside_temperature"]]
            ctx.check(len(got) == len(temps) and all(
                abs(x - y) < 1e-6 for x, y in zip(got, temps)),
                "wrong-content",
                      "the climate of %s is not that of its file" % a)
    if target == "tracebase":
        for (a, v), val in refs.items():
            wrong = wrong_trace(a, v, val)
            ctx.check(not wrong, "wrong-content", "the traces have another "
                      "content: %s" % wrong)
    if target == "gtou":
        for (a, v), val in refs.items():
            arr = gtou_arrays(a, v)
            ctx.check(synth.same(val, synth.norm(
                [arr["tpm"], arr["labels"], arr["initial_pdf"]])),
                "wrong-content", "the archive of %s has other content" % a)
    disk = iosim.Disk(ctx, iocommon.datasets_dir(ctx.root))
    disk.install()
    ctx.real.update(["download code", "archive extraction", "raw data parsers",
                     "dataset loaders", "real file system below the seam"])
    ctx.stub.update(["HTTP servers and sockets (simulated network)",
                     "content of the hosted files (partly synthetic)"])
    allowed = {}      # arg -> server versions whose content may be used
    certain = set()   # args whose data is known to be completely here

    def versions(server):
        return 0 if target in ("germany", "destatis") else server

    def which(arg, value):
        return [v for (a, v), val in refs.items()
                if a == arg and synth.same(val, value)]

    def life(n, spec, clean, network=True):
        arg, server = spec["arg"], versions(spec["server"])
        update = spec["update"]
        opened = spec.get("open", False) and not clean
        key = key_of(target, arg)
        disk.net = iosim.Network(
            ctx, content(ctx.root, server),
            [] if clean else copy.deepcopy(spec["net"]), case["chunk"])
        if not network:
            disk.net.faults = [{"kind": "unreachable"}] * 50
        nprog = 1 if clean else spec["programs"]
        procs = [iosim.Proc(10 * n + k, [] if clean or k else spec["disk"])
                 for k in range(nprog)]
        ctx.ev("LIFE", n, target, arg, server, update)
        had = key in certain and not update
        before = set(allowed.get(key, ()))
        may = before | {server}
        if update:
            certain.discard(key)
        if nprog == 1:
            res = [iosim.run_process(disk, procs[0],
                                     lambda: use(target, arg, update,
                                                 not opened))]
        else:
            sched = iosim.Scheduler(disk, ctx.rng, .6)
            for p in procs:
                sched.spawn(p, lambda: use(target, arg, update, not opened))
            sched.run()
            res = [p.result for p in procs]
        reqs = len(disk.net.requests)
        for p, (st, val) in zip(procs, res):
            ctx.ev("END", p.pid, st, reqs)
            ctx.cover(target, tuple(p.injected_kinds), st, reqs)
            if st == "error":
                net_faults = [k for k in p.injected_kinds if k[:4] == "net_"]
                if not p.injected and p.full_disk is None:
                    import traceback
                    ctx.fail("load-fails", "using %s (%s) fails although no "
                             "fault was injected into it: %s: %s" % (
                                 target, arg, type(val).__name__, val),
                             traceback="".join(
                                 traceback.format_exception(val))[-1500:])
                elif had and len(net_faults) == p.injected:
                    ctx.fail("not-used-offline", "using %s (%s), which was "
                             "completely downloaded before, fails because of "
                             "the network: %s: %s" % (
                                 target, arg, type(val).__name__, val))
                allowed[key] = may
                certain.discard(key) if not had else None
            elif st == "crash":
                allowed[key] = may
                certain.discard(key) if not had else None
        if opened:
            allowed[key] = may
        oks = [val for st, val in res if st == "ok" and not opened]
        for val in oks:
            ctx.probe("loaded")
            got = which(arg, val)
            ok = {server} if update else (before if had else may)
            if not got:
                ctx.fail("damaged-data", "using %s (%s) returned data that "
                         "the server never had" % (target, arg))
            elif not set(got) & ok:
                ctx.fail("stale-data" if update else "wrong-version",
                         "using %s (%s, update=%s) returned the data of "
                         "server state %s, expected %s" % (
                             target, arg, update, got, sorted(ok)))
            else:
                now = set(got) & ok
                if not had:
                    allowed[key] = now
        if oks and len(oks) == len(res):
            certain.add(key)
            if nprog > 1:
                allowed[key] = may if not had else before
        if had and reqs:
            ctx.fail("needless-download", "using %s (%s) contacted the server "
                     "although everything was downloaded" % (target, arg))
        return res

    for n, spec in enumerate(case["lives"]):
        life(n, spec, False)
    seen = []
    for spec in case["lives"]:
        if spec["arg"] in seen:
            continue
        seen.append(spec["arg"])
        quiet = dict(spec, update=False, server=case["lives"][-1]["server"])
        ctx.ev("RETRY")
        life(90, quiet, True)
        ctx.ev("OFFLINE")
        life(91, quiet, True, network=False)
