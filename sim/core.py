"""Runner of the deterministic simulations.

One *case* (a JSON object) is one exactly repeatable execution.  A case is
derived from (property, VERIF_SEED, index) by the property's ``generate`` and
executed by its ``execute`` in a forked child of a worker process which has the
code under test imported from its own scratch copy of /repo.
"""
import copy
import hashlib
import importlib
import json
import os
import random
import resource
import select
import shutil
import signal
import struct
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
    """The property is broken.  ``sig`` names the class of the violation."""

    def __init__(self, sig, msg="", **detail):
        super().__init__(msg)
        self.sig = sig
        self.msg = msg
        self.detail = detail


class InvalidCase(Exception):
    """The case is not one the generator could have made (shrinking only)."""


class Ctx:
    """What a case may use: its seed, its trace, its counters."""

    def __init__(self, case, root, findings=()):
        self.case = case
        self.root = root
        self.findings = {f["sig"] for f in findings}
        self.rng = random.Random(case.get("seed", 0))
        self._h = hashlib.sha256()
        self.events = 0
        self.tail = []
        self.faults = {}
        self.covered = set()
        self.probes = {}
        self.sim_seconds = 0.0
        self.known_hit = {}
        self.real = set()
        self.stub = set()

    def ev(self, *parts):
        """Records one event of the run in its trace."""
        s = " ".join(str(p) for p in parts)
        self._h.update(s.encode() + b"\n")
        self.events += 1
        self.tail.append(s)
        if len(self.tail) > 60:
            del self.tail[0]

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def cover(self, *key):
        self.covered.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def digest(self):
        return self._h.hexdigest()[:16]

    def fail(self, sig, msg="", **detail):
        """Reports a violation, unless it is a listed finding."""
        if sig in self.findings:
            self.known_hit[sig] = self.known_hit.get(sig, 0) + 1
            return
        raise Violation(sig, msg, **detail)

    def check(self, cond, sig, msg="", **detail):
        if not cond:
            self.fail(sig, msg, **detail)


def load_findings(prop):
    path = os.path.join(HERE, "known_findings.json")
    if not os.path.isfile(path):
        return []
    with open(path) as f:
        return [x for x in json.load(f)["findings"] if x["property"] == prop]


# ---------------------------------------------------------------- the worker

def _repo_frames(tb, root):
    return [
        f for f in traceback.extract_tb(tb)
        if os.path.abspath(f.filename).startswith(os.path.join(root, "demod"))
    ]


HOST_ZONES = ["Asia/Kolkata", "America/New_York", "Australia/Lord_Howe",
              "Europe/Zurich", "Pacific/Kiritimati"]


def host_zone(module, case, ctx):
    """One run of four takes place on a host in another time zone."""
    rng = random.Random("zone %s" % case.get("seed", 0))
    if getattr(module, "OWN_ZONES", False) or rng.random() > .25:
        return
    os.environ["TZ"] = rng.choice(HOST_ZONES)
    time.tzset()
    ctx.fault("host in another time zone")


def _run_child(module, case, root, findings, wfd, cpu):
    """In the forked child: execute the case, write the outcome, exit."""
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
    ctx = Ctx(case, root, findings)

    def outcome(status, **kw):
        kw.update(status=status, digest=ctx.digest(), events=ctx.events,
                  faults=ctx.faults, covered=sorted(ctx.covered),
                  probes=ctx.probes, sim_seconds=ctx.sim_seconds,
                  known_hit=ctx.known_hit, real=sorted(ctx.real),
                  stub=sorted(ctx.stub))
        return kw

    def on_cpu(signum, frame):
        raise Violation("no-progress", "the run used %d s of CPU time "
                        "without finishing" % cpu)

    signal.signal(signal.SIGXCPU, on_cpu)
    import warnings
    warnings.simplefilter("ignore")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    random.seed(case.get("seed", 0))
    try:
        import numpy as np
        np.random.seed(case.get("seed", 0) % (2 ** 32))
        np.seterr(all="ignore")
        host_zone(module, case, ctx)
        module.execute(case, ctx)
        out = outcome("ok")
    except Violation as v:
        out = outcome("violation", sig=v.sig, msg=v.msg, detail=v.detail,
                      tail=ctx.tail)
    except InvalidCase as e:
        out = outcome("invalid", msg=str(e))
    except BaseException as e:  # noqa
        frames = _repo_frames(e.__traceback__, root)
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        text = text.replace(root, "<ws>")
        if frames:
            last = frames[-1]
            out = outcome(
                "violation",
                sig="exception:%s" % type(e).__name__,
                msg="unexpected %s in the code under test at %s:%s: %s" % (
                    type(e).__name__,
                    os.path.relpath(last.filename, root), last.name, e),
                detail={"traceback": text[-3000:]}, tail=ctx.tail)
        elif isinstance(e, (LookupError, AttributeError, TypeError,
                            ValueError, ArithmeticError)):
            # the checks could not read what the code under test gave
            out = outcome(
                "violation", sig="form:%s" % type(e).__name__,
                msg="a result does not have the documented form: %s %s" % (
                    type(e).__name__, e),
                detail={"traceback": text[-3000:]}, tail=ctx.tail)
        else:
            out = outcome("harness-error", msg=text[-3000:])
    try:
        data = json.dumps(out, default=str).encode()
    except Exception as e:  # noqa
        data = json.dumps(outcome("harness-error", msg=repr(e)),
                          default=str).encode()
    data = data.replace(root.encode(), b"<ws>")
    view = memoryview(struct.pack("<I", len(data)) + data)
    while view:
        n = os.write(wfd, view)
        view = view[n:]
    os._exit(0)


def _read_exact(fd, n):
    buf = b""
    while len(buf) < n:
        chunk = os.read(fd, n - len(buf))
        if not chunk:
            return None
        buf += chunk
    return buf


def _worker(prop, root, rfd, wfd, findings):
    """Worker process: imports the code under test once, then one forked child
    per case, so that no case sees what another one left in memory."""
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    os.environ["HOME"] = root
    sys.dont_write_bytecode = True
    for m in [m for m in sys.modules if m == "demod" or m.startswith("demod.")]:
        del sys.modules[m]
    sys.path.insert(0, root)
    module = importlib.import_module("props." + prop.lower())

    def send(obj):
        data = json.dumps(obj, default=str).encode()
        view = memoryview(struct.pack("<I", len(data)) + data)
        while view:
            n = os.write(wfd, view)
            view = view[n:]

    import warnings
    warnings.simplefilter("ignore")
    saved = os.dup(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    try:
        module.prepare(root)
        import demod
        assert os.path.abspath(demod.__file__).startswith(root), demod.__file__
    except BaseException as e:  # noqa
        frames = _repo_frames(e.__traceback__, root)
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        send({"status": "import-" + ("violation" if frames else "error"),
              "msg": text.replace(root, "<ws>")[-3000:]})
        os._exit(0)
    os.dup2(saved, 1)
    import gc
    gc.collect()
    gc.freeze()
    send({"status": "ready"})
    reset = getattr(module, "reset", None)
    cpu = getattr(module, "CPU_LIMIT", 200)
    wall = getattr(module, "WALL_LIMIT", 500)
    while True:
        head = _read_exact(rfd, 4)
        if head is None:
            os._exit(0)
        case = json.loads(_read_exact(rfd, struct.unpack("<I", head)[0]))
        if reset:
            reset(root)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            _run_child(module, case, root, findings, w, cpu)
        os.close(w)
        if not select.select([r], [], [], wall)[0]:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            send({"status": "harness-error", "msg": "wall time-out"})
            continue
        hd = _read_exact(r, 4)
        data = _read_exact(r, struct.unpack("<I", hd)[0]) if hd else None
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if data is None:
            send({"status": "harness-error" if os.WIFEXITED(st) else "died",
                  "msg": "child ended with wait status %d" % st})
        else:
            send(json.loads(data))


class Pool:
    def __init__(self, prop, n, root, findings):
        self.prop, self.workers = prop, []
        mod = importlib.import_module("props." + prop.lower())
        for i in range(n):
            ws = os.path.join(root, "w%d" % i)
            os.makedirs(ws)
            mod.populate(ws)
            c2p_r, c2p_w = os.pipe()
            p2c_r, p2c_w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(c2p_r)
                    os.close(p2c_w)
                    for w in self.workers:
                        os.close(w["r"])
                        os.close(w["w"])
                    _worker(prop, ws, p2c_r, c2p_w, findings)
                except BaseException:  # noqa
                    traceback.print_exc()
                finally:
                    os._exit(3)
            os.close(c2p_w)
            os.close(p2c_r)
            self.workers.append(
                {"pid": pid, "r": c2p_r, "w": p2c_w, "busy": None, "i": i})
        for w in self.workers:
            msg = self._recv(w)
            if msg is None or msg["status"] != "ready":
                self.startup = msg or {"status": "import-error", "msg": "?"}
                return
        self.startup = None

    def _recv(self, w):
        hd = _read_exact(w["r"], 4)
        if hd is None:
            return None
        data = _read_exact(w["r"], struct.unpack("<I", hd)[0])
        return json.loads(data) if data is not None else None

    def _send(self, w, case):
        data = json.dumps(case).encode()
        view = memoryview(struct.pack("<I", len(data)) + data)
        while view:
            n = os.write(w["w"], view)
            view = view[n:]

    def map(self, cases, deadline=None, stop_on=None):
        """Yields (index, case, outcome) as the cases finish."""
        it = iter(enumerate(cases))
        pending = {}
        done_feeding = False
        while True:
            if not done_feeding:
                for w in self.workers:
                    if w["busy"] is None:
                        if deadline and time.monotonic() > deadline:
                            done_feeding = True
                            break
                        try:
                            i, c = next(it)
                        except StopIteration:
                            done_feeding = True
                            break
                        self._send(w, c)
                        w["busy"] = (i, c)
                        pending[w["r"]] = w
            if not pending:
                return
            ready, _, _ = select.select(list(pending), [], [])
            for fd in ready:
                w = pending.pop(fd)
                msg = self._recv(w)
                i, c = w["busy"]
                w["busy"] = None
                if msg is None:
                    msg = {"status": "harness-error", "msg": "worker died"}
                yield i, c, msg
                if stop_on and stop_on(msg):
                    done_feeding = True

    def run_one(self, case):
        w = next(w for w in self.workers if w["busy"] is None)
        self._send(w, case)
        return self._recv(w) or {"status": "harness-error", "msg": "died"}

    def close(self):
        for w in self.workers:
            for fd in (w["r"], w["w"]):
                try:
                    os.close(fd)
                except OSError:
                    pass
            try:
                os.kill(w["pid"], signal.SIGKILL)
            except OSError:
                pass
            try:
                os.waitpid(w["pid"], 0)
            except OSError:
                pass


# ---------------------------------------------------------------- shrinking

def generic_shrinks(case, keys):
    """Smaller variants of a case: fewer list elements, smaller numbers."""
    for key in keys:
        path = key.split(".")
        node = case
        for p in path:
            node = node.get(p) if isinstance(node, dict) else None
            if node is None:
                break
        if isinstance(node, list) and node:
            n = len(node)
            size = n
            while size >= 1:
                for s in range(0, n, size):
                    c = copy.deepcopy(case)
                    t = c
                    for p in path[:-1]:
                        t = t[p]
                    new = node[:s] + node[s + size:]
                    t[path[-1]] = copy.deepcopy(new)
                    yield c
                size //= 2
        elif isinstance(node, bool):
            if node:
                c = copy.deepcopy(case)
                t = c
                for p in path[:-1]:
                    t = t[p]
                t[path[-1]] = False
                yield c
        elif isinstance(node, int):
            for v in (0, 1, 2, node // 2, node - 1):
                if 0 <= v < node:
                    c = copy.deepcopy(case)
                    t = c
                    for p in path[:-1]:
                        t = t[p]
                    t[path[-1]] = v
                    yield c


def shrink(pool, module, case, outcome, budget_s):
    end = time.monotonic() + budget_s
    sig = outcome["sig"]
    tried = 0
    seen = set()
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        gen = getattr(module, "shrinks", None)
        cands = gen(case) if gen else generic_shrinks(
            case, getattr(module, "SHRINK", []))
        for cand in cands:
            if time.monotonic() > end:
                break
            k = hashlib.md5(json.dumps(cand, sort_keys=True).encode()).digest()
            if k in seen:
                continue
            seen.add(k)
            tried += 1
            out = pool.run_one(cand)
            if out["status"] == "violation" and out["sig"] == sig:
                case, outcome = cand, out
                progress = True
                break
    return case, outcome, tried


# ------------------------------------------------------------------- the CLI

def case_seed(prop, seed, i):
    h = hashlib.sha256(("%s/%s/%d" % (prop, seed, i)).encode()).digest()
    return int.from_bytes(h[:6], "little")


def make_case(module, prop, seed, i, tier):
    s = case_seed(prop, seed, i)
    case = module.generate(random.Random(s), i, tier)
    case.setdefault("seed", s % (2 ** 32))
    case["property"] = prop
    return case


def write_replay(prop, case, outcome):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    body = {
        "property": prop, "case": case,
        "violation": {k: outcome.get(k) for k in
                      ("sig", "msg", "detail", "digest", "tail")},
    }
    name = "%s-%s.json" % (prop, hashlib.md5(
        json.dumps(case, sort_keys=True).encode()).hexdigest()[:10])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump(body, f, indent=1, default=str)
    return path


def _exit_code_for(prop, msg, case=None):
    path = write_replay(prop, case or {"property": prop, "import": True}, {
        "sig": "import", "msg": msg, "detail": {}, "digest": "", "tail": []})
    print(msg, file=sys.stderr)
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1


def run_check(prop, tier, seed, n_workers=None, digests_to=None,
              max_cases=None):
    t0 = time.monotonic()
    module = importlib.import_module("props." + prop.lower())
    from . import workspace
    findings = load_findings(prop)
    n = n_workers or min(8, os.cpu_count() or 1)
    root = workspace.make_root()
    pool = None
    try:
        if hasattr(module, "shared"):
            module.shared(root)
        pool = Pool(prop, n, root, findings)
        if pool.startup:
            st = pool.startup
            if st["status"] == "import-violation":
                return _exit_code_for(
                    prop, "the code under test cannot be prepared: "
                    + st["msg"])
            print("HARNESS-ERROR " + st["msg"], file=sys.stderr)
            return 2
        n_cases = module.CASES[tier] if max_cases is None else max_cases
        budget = {"quick": getattr(module, "QUICK_S", 240),
                  "thorough": getattr(module, "THOROUGH_S", 3600)}[tier]
        budget = float(os.environ.get("VERIF_BUDGET_S", budget))
        deadline = t0 + budget
        fixed = list(getattr(module, "FIXED", []))

        def cases():
            for k, c in enumerate(fixed):
                c = copy.deepcopy(c)
                c.setdefault("seed", k)
                c["property"] = prop
                yield c
            for i in range(n_cases):
                yield make_case(module, prop, seed, i, tier)

        agg = {"faults": {}, "probes": {}, "known": {}}
        covered, digests, samples = set(), {}, []
        evaluations, sim_s, events = 0, 0.0, 0
        real, stub = set(), set()
        bad = []
        nontriv = set()
        for i, case, out in pool.map(
                cases(), deadline,
                stop_on=lambda m: m["status"] not in ("ok", "invalid")):
            evaluations += 1
            if out["status"] in ("violation", "harness-error", "died"):
                bad.append((i, case, out))
                continue
            digests[i] = out["digest"]
            sim_s += out["sim_seconds"]
            events += out["events"]
            covered.update(out["covered"])
            if out["events"] > 1:
                nontriv.add(out["digest"])
            for k, v in out["faults"].items():
                agg["faults"][k] = agg["faults"].get(k, 0) + v
            for k, v in out["probes"].items():
                agg["probes"][k] = agg["probes"].get(k, 0) + v
            for k, v in out["known_hit"].items():
                agg["known"][k] = agg["known"].get(k, 0) + v
            real.update(out["real"])
            stub.update(out["stub"])
            if len(samples) < 3:
                s = json.dumps(case)
                samples.append(s if len(s) < 1500 else s[:1500] + "...")
        explore_wall = time.monotonic() - t0
        code, viol = 0, []
        bad.sort(key=lambda b: b[0])
        harness = [b for b in bad if b[2]["status"] == "harness-error"]
        vs = [b for b in bad if b[2]["status"] in ("violation", "died")]
        if vs:
            i, case, out = vs[0]
            if out["status"] == "died":
                out = dict(out, sig="died", detail={}, tail=[])
                tried = 0
            else:
                case, out, tried = shrink(
                    pool, module, case, out,
                    float(os.environ.get("VERIF_SHRINK_S", 25)))
            path = write_replay(prop, case, out)
            viol.append({"sig": out["sig"], "msg": out["msg"],
                         "replay": path, "shrink_attempts": tried})
            print("%s: case %d: [%s] %s" % (prop, i, out["sig"], out["msg"]))
            code = 1
        elif harness:
            print("HARNESS-ERROR case %s: %s" % (
                json.dumps(harness[0][1])[:2000], harness[0][2]["msg"]),
                file=sys.stderr)
            code = 2
        wall = time.monotonic() - t0
        ev = {
            "property": prop, "tier": tier, "seed": seed,
            "level": getattr(module, "LEVEL", "exploration"),
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": len(nontriv),
                "rule": module.RULE,
                "samples": samples or ["none"],
                "simulated_runs": evaluations,
                "runs_per_hour": int(evaluations / max(explore_wall, 1e-6)
                                     * 3600),
                "simulated_seconds": sim_s,
                "trace_events": events,
                "faults_injected": agg["faults"],
                "probes": agg["probes"],
                "distinct_states": len(covered),
                "distinct_states_measure": getattr(
                    module, "STATES", "keys recorded by the harness"),
                "components_real": sorted(real),
                "components_stubbed": sorted(stub),
                "known_findings_hit": agg["known"],
                "batch_digest": hashlib.sha256(json.dumps(
                    sorted(digests.items())).encode()).hexdigest()[:16],
                "stopped_early_by_time": evaluations < n_cases + len(fixed)
                and not bad,
            },
            "assumptions": getattr(module, "ASSUMPTIONS", []),
            "wall_s": round(wall, 2),
            "violations": len(viol),
        }
        if os.environ.get("VERIF_NO_EVIDENCE") != "1":
            os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
            with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
                json.dump(ev, f, indent=1)
        if digests_to:
            with open(digests_to, "w") as f:
                json.dump({str(k): v for k, v in sorted(digests.items())}, f)
        for f in findings:
            print("KNOWN-FINDING: property=%s %s%s" % (
                prop, f["what"],
                "" if agg["known"].get(f["sig"]) else
                " (not reached in this run)"))
        for v in viol:
            print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        if code == 0:
            print("OK property=%s tier=%s seed=%d runs=%d distinct=%d "
                  "states=%d sim_time=%.0fs faults=%s wall=%.1fs" % (
                      prop, tier, seed, evaluations, len(nontriv),
                      len(covered), sim_s, sum(agg["faults"].values()), wall))
        return code
    finally:
        if pool:
            pool.close()
        shutil.rmtree(root, ignore_errors=True)


def run_replay(path):
    with open(path) as f:
        body = json.load(f)
    prop, case = body["property"], body["case"]
    module = importlib.import_module("props." + prop.lower())
    from . import workspace
    root = workspace.make_root()
    pool = None
    try:
        if hasattr(module, "shared"):
            module.shared(root)
        pool = Pool(prop, 1, root, load_findings(prop))
        if pool.startup:
            print(pool.startup["msg"])
            if pool.startup["status"] == "import-violation":
                print("VIOLATION property=%s replay=%s" % (prop, path))
                return 1
            return 2
        if case.get("import"):
            print("the import problem does not reproduce")
            return 0
        out = pool.run_one(case)
        print(json.dumps({k: out.get(k) for k in (
            "status", "sig", "msg", "detail", "tail", "digest")}, indent=1))
        if out["status"] == "violation":
            same = (out["sig"] == body["violation"]["sig"]
                    and out["digest"] == body["violation"]["digest"])
            print("reproduced exactly" if same else "reproduced differently")
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        return 0 if out["status"] == "ok" else 2
    finally:
        if pool:
            pool.close()
        shutil.rmtree(root, ignore_errors=True)
