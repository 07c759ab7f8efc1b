"""P01: cached datasets survive crashes, disk errors and full disks."""
import copy

from sim import iocommon, iosim, synth

POPULATION = iocommon
populate, reset = iocommon.populate, iocommon.reset
CASES = {"quick": 4000, "thorough": 60000}
QUICK_S, THOROUGH_S = 120, 1500
LEVEL = "exploration"
RULE = ("A case is one to three simulated process lives of a dataset loader, "
        "each with up to three planned faults (kill, power loss, torn write, "
        "EIO, full disk, failing parse), then a clean life and a life without "
        "raw data; non-trivial if the traces of disk operations differ.")
STATES = ("distinct (loading method, disk operation, file role, fault kind) "
          "at which a fault fired")
ASSUMPTIONS = [
    "metadata operations (create, rename, unlink, mkdir) reach the disk in "
    "order; data which was not fsynced may be lost or torn on power loss",
    "raw data does not change between the lives of one case",
]


def prepare(root):
    import demod.datasets.base_loader  # noqa
    import demod.datasets.tou_loader  # noqa
    import demod.datasets.CREST.loader  # noqa
    iocommon.snapshot(root)


def _fault(rng):
    k = rng.choice(["crash", "crash", "crash", "torn", "power", "power",
                    "eio", "full", "eio"])
    on = rng.choice(["write", "write", "write", "create", "rename", "mkdir",
                     "fsync", "unlink", "read", None])
    at = rng.choice([1, 1, 2, 2, 3, 4, 5, 6, 8, 11, 15])
    f = {"kind": "crash", "on": on, "at": at}
    if k == "torn":
        f.update(on="write", keep=rng.choice([0.0, 0.1, 0.5, 0.9, 1.0, 1]))
    elif k == "power":
        f["power"] = rng.choice([0.0, 0.0, 0.3, 0.99])
        if on == "write" and rng.random() < .5:
            f["keep"] = 0.5
    elif k == "eio":
        f["kind"] = "eio"
        if on == "write":
            f["keep"] = rng.choice([0, 0.5])
    elif k == "full":
        f = {"kind": "full", "on": rng.choice(["write", "create", None]),
             "at": at, "room": rng.choice([0, 0, 100, 4000])}
    return f


def random_op(rng, crest, activity):
    while True:
        kind = rng.choice(synth.ALL_METHODS)
        if kind == "load_tpm" and activity.startswith("Sparse"):
            continue
        if kind == "load_sparse_tpm" and not activity.startswith("Sparse"):
            continue
        break
    arg = synth.random_arg(rng, kind)
    if crest and kind == "load_tpm":
        arg = {"n_residents": rng.randrange(1, 7),
               "weekday": rng.choice([[1, 2, 3, 4, 5], [6, 7]])}
    return [kind, arg]


def generate(rng, i, tier):
    crest = rng.random() < .2
    activity = "4_States" if crest else rng.choice(["4_States", "Sparse9"])
    pool = [random_op(rng, crest, activity)
            for _ in range(rng.randrange(1, 4))]
    lives = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        ops = [copy.deepcopy(rng.choice(pool))
               for _ in range(rng.randrange(1, 4))]
        lives.append({
            "ops": ops,
            "faults": [_fault(rng) for _ in range(rng.choice([1, 1, 2, 3]))],
            "parse_failures": rng.choice([0, 0, 0, 0, 1]),
        })
    return {"crest": crest, "activity": activity,
            "version": "2.2" if crest else rng.choice([None, "v1"]),
            "scale": rng.choice(["small", "small", "big"]),
            "salt": rng.randrange(1000), "lives": lives}


SHRINK = ["lives", "lives.0.ops"]


def shrinks(case):
    from sim.core import generic_shrinks
    yield from generic_shrinks(case, ["lives"])
    for k, life in enumerate(case["lives"]):
        for field in ("faults", "ops"):
            for c in generic_shrinks(life, [field]):
                new = copy.deepcopy(case)
                new["lives"][k] = c
                yield new
        if life["parse_failures"]:
            new = copy.deepcopy(case)
            new["lives"][k]["parse_failures"] = 0
            yield new
    if case["scale"] == "big":
        new = copy.deepcopy(case)
        new["scale"] = "small"
        yield new


def make(case, cls):
    if case["crest"]:
        return cls(case["version"])
    return cls(case["activity"], version=case["version"])


def execute(case, ctx):
    state = {"salt": case["salt"], "parsed": {}, "raw": True,
             "scale": case["scale"], "ctx": ctx}
    cls = synth.make_loader_class("SynthA", state, case["crest"])
    disk = iosim.Disk(ctx, iocommon.datasets_dir(ctx.root))
    disk.install()
    ctx.real.update(["dataset loaders", "dataset serialisation",
                     "real file system below the seam"])
    ctx.stub.update(["raw data parsing (synthetic content)"])
    ver = ("v_" + case["version"]) if case["crest"] else case["version"]

    def want(kind, arg):
        return synth.expected(kind, case["scale"], case["salt"], ver,
                              case["activity"], arg)

    def compare(kind, arg, value, where):
        got = synth.norm(value)
        exp = want(kind, arg)
        if not synth.same(exp, got):
            ctx.fail("wrong-data", "%s(%s) returned other data than the "
                     "parser produced (%s): %s" % (
                         kind, arg, where,
                         synth.describe_difference(exp, got)))

    every = []
    for n, life in enumerate(case["lives"]):
        proc = iosim.Proc(n, life["faults"])
        state["fail"] = life["parse_failures"]
        ctx.ev("LIFE", n)

        def body():
            loader = None
            for kind, arg in life["ops"]:
                ctx.ev("OP", kind, arg)
                before = proc.injected, state["fail"]
                try:
                    if loader is None:
                        loader = make(case, cls)
                    value = synth.call(loader, kind, arg)
                except Exception as e:  # noqa
                    # an operation may fail, but only when something failed
                    if (proc.injected, state["fail"]) == before and \
                            proc.full_disk is None:
                        ctx.fail(
                            "load-fails", "%s(%s) fails with no fault during "
                            "it: %s: %s" % (kind, arg, type(e).__name__, e))
                    ctx.ev("FAILED", type(e).__name__)
                    ctx.cover(kind, tuple(proc.injected_kinds[-1:]),
                              type(e).__name__)
                    continue
                compare(kind, arg, value, "in a life with faults")
                ctx.probe("returned_during_faults")
        status, val = iosim.run_process(disk, proc, body)
        if status == "error":
            raise val
        if status == "crash":
            ctx.ev("CRASHED")
            ctx.cover(tuple(map(str, life["ops"][0][:1])), "crash",
                      tuple(sorted(proc.kinds.items())))
        for op in life["ops"]:
            if op not in every:
                every.append(op)
    state["fail"] = 0

    for phase, raw in (("after the faults stopped", True),
                       ("without raw data", False)):
        state["raw"] = raw
        ctx.ev("PHASE", phase)

        def clean():
            try:
                loader = make(case, cls)
            except Exception as e:  # noqa
                ctx.fail("restart-fails", "the loader cannot be created %s: "
                         "%s: %s" % (phase, type(e).__name__, e))
                return
            for kind, arg in every:
                ctx.ev("OP", kind, arg)
                try:
                    value = synth.call(loader, kind, arg)
                except Exception as e:  # noqa
                    ctx.fail("load-fails-for-good" if raw else "cache-unused",
                             "%s(%s) fails %s: %s: %s" % (
                                 kind, arg, phase, type(e).__name__, e))
                    continue
                compare(kind, arg, value, phase)
        status, val = iosim.run_process(disk, iosim.Proc(90 + raw), clean)
        if status == "error":
            raise val
