"""P04: programs using the same dataset at the same time do not disturb
each other."""
import copy

from sim import iocommon, iosim, synth
from props import p01, p03

reset = iocommon.reset
CASES = {"quick": 1200, "thorough": 40000}
QUICK_S, THOROUGH_S = 150, 1500
RULE = ("A case is two to four simulated programs which create loaders of the "
        "same dataset and load overlapping items, interleaved at every file "
        "operation by a seeded scheduler, some of them killed or stalled; "
        "non-trivial if the sequence of operations and switches is new.")
STATES = "distinct (program, operation) orders around the same file"
ASSUMPTIONS = [
    "programs switch at file operations only (not inside one)",
    "parsing gives every program the same content",
]


def prepare(root):
    import demod.datasets.base_loader  # noqa
    import demod.datasets.tou_loader  # noqa
    import demod.datasets.CREST.loader  # noqa
    iocommon.snapshot(root)
    p03.prepare(root, sorted(HOSTED))


def populate(ws):
    iocommon.populate(ws)
    p03.serve(ws)


def some_faults(rng):
    r = rng.random()
    if r < .12:
        return [{"kind": "crash", "at": rng.randrange(1, 30),
                 "on": rng.choice([None, "write", "create", "rename"])}]
    if r < .3:
        return [{"kind": "stall", "on": rng.choice(
            ["write", "rename", "create", "mkdir", "read", "fsync"]),
            "at": rng.randrange(1, 6), "for": rng.choice([3, 10, 60])}]
    return []


HOSTED = {"ninja": ["population", "land_area"],
          "gtou": ["4_States", "DemodActivities_0"],
          "tracebase": ["full@60", "switchedON@60", "full@60", "switchedON@60",
                        "full@300", "switchedON@1"],
          "germany": ["appliances", "climate"], "destatis": [None]}


def generate_hosted(rng):
    """Programs using a dataset which has to be downloaded first."""
    target = rng.choice(["ninja", "ninja", "gtou", "gtou", "gtou",
                         "tracebase", "tracebase", "germany", "destatis"])
    return {"hosted": target, "warm": rng.random() < .15,
            "chunk": rng.choice([0, 0, 1000, 333]),
            "procs": [{"ops": [rng.choice(HOSTED[target]) for _ in
                               range(rng.choice([1, 1, 2]))],
                       "faults": some_faults(rng)}
                      for _ in range(rng.choice([2, 2, 2, 3]))],
            "switch": rng.choice([.05, .2, .5, .9, 1.0])}


def generate(rng, i, tier):
    if rng.random() < .15:
        return generate_hosted(rng)
    crest = rng.random() < .2
    activity = "4_States" if crest else rng.choice(["4_States", "Sparse9"])
    pool = [p01.random_op(rng, crest, activity)
            for _ in range(rng.randrange(1, 3))]
    procs = []
    warm = rng.random() < .15
    for _ in range(rng.choice([2, 2, 2, 3, 3, 4])):
        procs.append({"ops": [copy.deepcopy(rng.choice(pool)) for _ in
                              range(rng.randrange(1, 4))],
                      "faults": some_faults(rng)})
    return {"crest": crest, "activity": activity, "warm": warm,
            "version": "2.2" if crest else rng.choice([None, "v1"]),
            "scale": rng.choice(["small", "big"]),
            "salt": rng.randrange(1000), "procs": procs,
            "switch": rng.choice([.05, .2, .5, .9, 1.0])}


def shrinks(case):
    from sim.core import generic_shrinks
    yield from generic_shrinks(case, ["procs"])
    for k, p in enumerate(case["procs"]):
        for f in ("faults", "ops"):
            for c in generic_shrinks(p, [f]):
                new = copy.deepcopy(case)
                new["procs"][k] = c
                yield new
    for s in range(6):
        if case["seed"] != s:
            yield dict(copy.deepcopy(case), seed=s)


def execute(case, ctx):
    if not case["procs"]:
        return
    if "hosted" in case:
        return execute_hosted(case, ctx)
    state = {"salt": case["salt"], "parsed": {}, "raw": True,
             "scale": case["scale"], "ctx": ctx}
    cls = synth.make_loader_class("SynthA", state, case["crest"])
    disk = iosim.Disk(ctx, iocommon.datasets_dir(ctx.root))
    disk.install()
    ctx.real.update(["dataset loaders", "dataset serialisation",
                     "real file system below the seam"])
    ctx.stub.update(["raw data parsing", "processes (seeded threads)"])
    ver = ("v_" + case["version"]) if case["crest"] else case["version"]
    sched = iosim.Scheduler(disk, ctx.rng, case["switch"])

    def want(kind, arg):
        return synth.expected(kind, case["scale"], case["salt"], ver,
                              case["activity"], arg)

    def program(ops):
        def body():
            loader = p01.make(case, cls)
            for kind, arg in ops:
                value = synth.call(loader, kind, copy.deepcopy(arg))
                exp, got = want(kind, arg), synth.norm(value)
                if not synth.same(exp, got):
                    return "%s(%s): %s" % (
                        kind, arg, synth.describe_difference(exp, got))
            return None
        return body

    if case["warm"]:
        st, v = iosim.run_process(
            disk, iosim.Proc(99), program(case["procs"][0]["ops"][:1]))
        if st == "error":
            raise v
    for n, p in enumerate(case["procs"]):
        sched.spawn(iosim.Proc(n, p["faults"]), program(p["ops"]))
    judge(case, ctx, sched)
    every = []
    for p in case["procs"]:
        for op in p["ops"]:
            if op not in every:
                every.append(op)
    for raw in (True, False):
        state["raw"] = raw
        st, v = iosim.run_process(disk, iosim.Proc(90), program(every))
        if st == "error":
            ctx.fail("fails-afterwards", "after all programs ended, loading "
                     "fails: %s: %s" % (type(v).__name__, v))
        elif v:
            ctx.fail("wrong-data-afterwards", v)


def judge(case, ctx, sched):
    sched.run()
    ctx.probe("switches", sched.switches)
    for n, (p, proc) in enumerate(zip(case["procs"], sched.procs)):
        st, v = proc.result
        ctx.ev("END", n, st)
        ctx.cover(st, tuple(sorted(proc.kinds.items())))
        if st == "error":
            import traceback
            ctx.fail("fails", "program %d of %d fails because of the others: "
                     "%s: %s" % (n, len(case["procs"]), type(v).__name__, v),
                     traceback="".join(traceback.format_exception(v))[-1500:])
        elif st == "ok" and v:
            ctx.fail("wrong-data", "program %d got wrong data: %s" % (n, v))
        elif st == "crash":
            ctx.probe("killed")


def execute_hosted(case, ctx):
    target = case["hosted"]
    disk = iosim.Disk(ctx, iocommon.datasets_dir(ctx.root))
    disk.install()
    ctx.real.update(["dataset loaders", "download code", "raw data parsers",
                     "archive extraction", "real file system below the seam"])
    ctx.stub.update(["processes (seeded threads)",
                     "HTTP servers and sockets (simulated network)"])
    sched = iosim.Scheduler(disk, ctx.rng, case["switch"])

    def online():
        disk.net = iosim.Network(ctx, p03.content(ctx.root, 0), [],
                                 case["chunk"])

    def program(ops):
        def body():
            for arg in ops:
                got = p03.use(target, arg, False)
                st, want = p03._ref[target, arg, 0]
                if st != "ok":
                    return "%s (%s) alone: %s" % (target, arg, want[-800:])
                if not synth.same(want, got):
                    return "%s (%s): %s" % (
                        target, arg, synth.describe_difference(want, got))
            return None
        return body

    online()
    if case["warm"]:
        st, v = iosim.run_process(
            disk, iosim.Proc(99), program(case["procs"][0]["ops"][:1]))
        if st == "error":
            raise v
    for n, p in enumerate(case["procs"]):
        sched.spawn(iosim.Proc(n, p["faults"]), program(p["ops"]))
    judge(case, ctx, sched)
    every = sorted({op for p in case["procs"] for op in p["ops"]}, key=str)
    for net in (True, False):
        online()
        if not net:
            disk.net.faults = [{"kind": "unreachable"}] * 50
        st, v = iosim.run_process(disk, iosim.Proc(90), program(every))
        if st == "error":
            ctx.fail("fails-afterwards", "after all programs ended, loading "
                     "%s fails: %s: %s" % (
                         "again" if net else "without network",
                         type(v).__name__, v))
        elif v:
            ctx.fail("wrong-data-afterwards", v)
