"""P16: lights are on only where someone is, as long and as often as the data
say."""
import math
import random

import numpy as np

from props.p12 import near
from sim import simenv
from sim.simenv import Rng, equal, rs, show

shared, populate, prepare = simenv.shared, simenv.populate, simenv.prepare
CASES = {"quick": 1200, "thorough": 80000}
QUICK_S, THOROUGH_S = 100, 1500
CPU_LIMIT = 100
RULE = ("A case simulates seeded bulbs, occupancies with departures and "
        "irradiances, with extreme random draws as faults, and follows each "
        "bulb; non-trivial if the pattern of use is new.")
STATES = "distinct (simulator, mode, event) tuples"
ASSUMPTIONS = ["the random numbers come from numpy.random",
               "frequencies are compared up to 6.5 standard deviations"]
SHRINK = ["k", "rate", "n"]


def generate(rng, i, tier):
    kind = rng.choice(["crest", "crest", "crest", "fisher"])
    stats = kind == "crest" and rng.random() < .15
    m = rng.choice([1, 2, 4])
    low = sorted(rng.choice([0.0, .4, 1.0, 1.5, 3.0, 8.0, 30.0])
                 for _ in range(m))
    mode = rng.choice(["certain", "some", "rare"])
    return {"kind": kind, "stats": stats, "mode": mode,
            "n": 3000 if stats else rng.choice([1, 2, 5, 12]),
            "low": low, "width": [rng.choice([0.0, .5, 1.0, 4.0])
                                  for _ in range(m)],
            "pdf": [rng.choice([0, 1, 3]) for _ in range(m - 1)] + [1],
            "algo": rng.choice(["config", "config", "config", "randn"]),
            "std": rng.choice([0.0, 0.0, 10.0]),
            "missing": rng.choice(["nan", "zero"]),
            "pause": rng.random() < .5, "salt": rng.randrange(10 ** 6),
            "sky": rng.choice(["dark", "mixed", "bright", "edge"]),
            "each": rng.random() < .3, "defaults": rng.random() < .4,
            "leave": rng.choice([0, .1, .4]), "block": rng.choice([1, 4, 20]),
            "k": rng.choice([1, 12]) if stats else rng.choice(
                [2, 2, 15, 15, 60, 60, 250]),
            "top": rng.choice([5, 5, 5, 8, 12]),
            "rate": 0 if stats else rng.choice([0, 0, .05, .3])}


def shrinks(case):
    from sim.core import generic_shrinks
    for c in generic_shrinks(case, SHRINK):
        if c["n"] > 0 and c["k"] > 0:
            yield c


class Data:
    def __init__(self, case):
        self.case = case
        self.scale = {"certain": 1e30, "some": .2, "rare": .01}[case["mode"]]
        p = np.array(case["pdf"], dtype=float)
        self.pdf = p / p.sum()
        # nobody needs another light with two or four active occupants
        self.effective = np.array(
            [0., 1., 0., 1.7, 0., 2.1] if case["pause"]
            else [0., 1., 1.5, 1.7, 2.0, 2.1])
        # data for larger households
        more = case["top"] - 5
        self.effective = np.append(self.effective, 2.1 + .25 * np.arange(
            1, more + 1) * (np.arange(more) % 3 > 0 if case["pause"] else 1))
        r = rs(case["salt"], "bulbs")
        self.config = []
        for _ in range(r.randint(1, 7)):
            row = np.full(9, math.nan if case["missing"] == "nan" else 0.0)
            n = r.randint(1, 10)
            row[:n] = r.permutation(2.0 ** np.arange(9))[:n]
            self.config.append(row)
        self.config = np.array(self.config)

    def load_crest_lighting(self):
        c = self.case
        return {"calibration_scalar": self.scale,
                "effective_occupancy": self.effective.copy(),
                "durations_cdf": np.cumsum(self.pdf),
                "durations_minutes_low": np.array(c["low"]),
                "durations_minutes_high": np.array(c["low"]) + np.array(
                    c["width"]),
                "irradiance_threshold_mean": 60.0,
                "irradiance_threshold_std": c["std"]}

    def load_bulbs(self):
        return np.array([1., 4., 16., 64.]), np.array([.5, .3, .2, 0.])

    def load_bulbs_config(self):
        return self.config.copy()

    def load_installed_bulbs_stats(self):
        return 6.0, 3.0

    def load_fisher_lighting(self):
        r = rs(self.case["salt"], "fisher")
        low = int(r.choice([0, 5, 30]))
        return {"irradiation_threshold_min": low,
                "irradiation_threshold_max": low + int(r.choice([1, 30])),
                "individual_light_use": float(r.choice([12, 40.5]))}

    def durations(self):
        """The numbers of steps that a light may stay on."""
        out = set()
        for p, a, w in zip(self.pdf, self.case["low"], self.case["width"]):
            if p > 0:
                # the largest number that can be drawn is under one
                out |= set(range(int(a), int(a + (1 - 2.0 ** -53) * w) + 1))
        return out

    def longer(self, t):
        """The probability that a light stays on for more than t steps."""
        out = 0.0
        for p, a, w in zip(self.pdf, self.case["low"], self.case["width"]):
            # int(a + r w) > t  <=>  a + r w >= t + 1
            q = float(a >= t + 1) if w == 0 else \
                min(1.0, max(0.0, (a + w - t - 1) / w))
            out += p * q
        return out


def irradiance(case, k):
    r = rs(case["salt"], "sky", k // case["block"])
    v = {"dark": [0.0, 5.0, 20.0], "bright": [100.0, 400.0, 61.0],
         "edge": [60.0, 59.999, 60.001],
         "mixed": [0.0, 20.0, 59.0, 60.0, 200.0]}[case["sky"]]
    if case["each"]:
        return r.choice(v, size=case["n"])
    return float(r.choice(v))


def occupants(case, k):
    r = rs(case["salt"], "occ", k // case["block"])
    v = r.randint(0, case["top"] + 1, size=case["n"])
    if case["leave"] and rs(case["salt"], "leave", k).random_sample() < \
            case["leave"]:
        v = np.where(rs(case["salt"], "who", k).random_sample(case["n"]) < .5,
                     0, v)
    return v


def execute(case, ctx):
    with Rng(ctx, case["rate"], case["seed"]):
        np.random.seed(case["seed"] % 2 ** 32)
        (fisher if case["kind"] == "fisher" else crest)(case, ctx)


def fisher(case, ctx):
    from demod.simulators.lighting_simulators import FisherLightingSimulator
    ctx.real.add("FisherLightingSimulator")
    data = Data(case)
    d = data.load_fisher_lighting()
    kw, active, sky = {}, np.ones(case["n"]), 0.0
    if not case["defaults"]:
        active, sky = occupants(case, 0), irradiance(case, 0)
        if case["each"] and case["n"] > 1:
            sky = float(sky[0])
        kw = {"initial_active_occupancy": active.copy(),
              "initial_irradiance": sky}
    sim = FisherLightingSimulator(case["n"], data=data, **kw)
    low, high = d["irradiation_threshold_min"], d["irradiation_threshold_max"]
    for k in range(case["k"] + 1):
        use = np.minimum(1.0, np.maximum(0.0, (high - np.asarray(sky)) / float(
            high - low)))
        want = active * d["individual_light_use"] * use
        got = np.asarray(sim.get_power_consumption(), dtype=float)
        ctx.check(equal(got, want, 1e-9), "fisher", "%s active occupants at "
                  "%s W/m2 use %s instead of %s" % (
                      show(active), show(sky), show(got), show(want)))
        ctx.ev(k, simenv.digest(got))
        ctx.cover("fisher", bool(np.any(use == 0)), bool(np.any(use == 1)))
        active, sky = occupants(case, k + 1), irradiance(case, k + 1)
        sim.step(active.copy(), sky)
    ctx.sim_seconds += 60 * case["k"]


def crest(case, ctx):
    from demod.simulators.lighting_simulators import CrestLightingSimulator
    ctx.real.add("CrestLightingSimulator")
    data, n = Data(case), case["n"]
    sim = CrestLightingSimulator(n, data=data,
                                 bulbs_sampling_algo=case["algo"])
    bulbs = np.array(sim.bulbs_power, dtype=float)
    installed(case, ctx, data, bulbs)
    exact = case["algo"] == "config"
    there = ~np.isnan(bulbs) & (bulbs > 0)
    total = np.where(there, bulbs, 0).sum(axis=1)
    on = np.zeros(bulbs.shape, dtype=bool)
    left = {(h, b): {0} for h, b in zip(*np.where(there))} if exact and \
        not case["stats"] else None
    durations = data.durations()
    first = None
    for k in range(case["k"] + 1):
        power = np.asarray(sim.get_electric_consumptions(), dtype=float)
        for name in ("get_power_demand", "get_thermal_gains"):
            v = np.asarray(getattr(sim, name)(), dtype=float)
            ctx.check(equal(v, power), "power", "%s gives %s for a "
                      "consumption of %s" % (name, show(v), show(power)))
        ctx.check(power.shape == (n,) and bool(
            (power <= total + 1e-9).all()), "power", "consumptions of %s of "
            "bulbs with %s W" % (show(power), show(total)))
        ctx.ev(k, simenv.digest(power))
        if k:
            gone = active == 0
            ctx.check(not power[gone].any(), "nobody", "lights use %s where "
                      "%s are active" % (show(power[gone]), 0))
            if gone.any():
                ctx.fault("everyone leaves", int((before[gone] > 0).sum()))
        else:
            ctx.check(not power.any(), "start", "lights are on at the start")
        before = power
        if exact:
            bits = power.astype(int)
            new = there & ((bits[:, None] & np.where(
                there, bulbs, 0).astype(int)) > 0)
            ctx.check(equal(np.where(new, bulbs, 0).sum(axis=1), power),
                      "power", "no set of bulbs uses %s" % show(power))
            if k and left is not None:
                follow(case, ctx, data, left, new, active, sky, durations, k)
            if k == 1 and case["stats"]:
                frequency(case, ctx, data, there, new, active, sky)
                first = new
            elif k > 1 and first is not None and case["pause"]:
                got = new[first].sum()
                # int(duration) of those which were seen at all
                q = data.longer(k - 1) / max(data.longer(0), 1e-12)
                ctx.check(near(got, first.sum(), q), "durations", "%d of %d "
                          "lights are on after %d steps, the data give %.4f"
                          % (got, first.sum(), k, q))
            on = new
        if case["stats"]:
            # switched on once, then nobody needs another light
            active = np.ones(n, dtype=int) if k == 0 else np.full(n, 2)
            if not case["pause"]:
                active = np.full(n, 3)
        else:
            active = occupants(case, k)
        sky = irradiance(case, k)
        sim.step(active.copy(), sky)
    ctx.sim_seconds += 60 * case["k"]


def installed(case, ctx, data, bulbs):
    n = case["n"]
    ctx.check(len(bulbs) == n, "bulbs", "bulbs of %d households" % len(bulbs))
    if case["algo"] == "config":
        key = [np.nan_to_num(c).tobytes() for c in data.config]
        got = [np.nan_to_num(b).tobytes() for b in bulbs]
        ctx.check(all(g in key for g in got), "bulbs", "a household has none "
                  "of the configurations")
        if case["stats"]:
            for x in set(key):
                q = key.count(x) / len(key)
                ctx.check(near(got.count(x), n, q), "configurations", "%d of "
                          "%d households have a configuration of frequency "
                          "%.3f" % (got.count(x), n, q))
            # not in the order of the households
            at = np.array([key.index(g) for g in got], float)
            if n >= 100 and at.std() > 0:
                rho = np.corrcoef(at, np.arange(n))[0, 1]
                ctx.check(abs(rho) < 6.5 / n ** .5, "configurations",
                          "the configurations follow the order of the "
                          "households (correlation %.3f)" % rho)
        return
    count = (bulbs > 0).sum(axis=1)
    power = bulbs[bulbs > 0]
    ctx.check(bool((count >= 1).all()) and set(power) <= {1., 4., 16.},
              "bulbs", "households with %s bulbs of %s W" % (
                  show(count), sorted(set(power))))
    if case["stats"]:
        for x, q in ((1., .5), (4., .3), (16., .2)):
            ctx.check(near((power == x).sum(), len(power), q), "bulbs",
                      "%d of %d bulbs have %s W" % (
                          (power == x).sum(), len(power), x))
        phi = lambda x: .5 * (1 + math.erf(x / 2 ** .5))
        for c in range(1, 13):
            a = -math.inf if c == 1 else (c - 6) / 3
            q = phi((c + 1 - 6) / 3) - phi(a)
            ctx.check(near((count == c).sum(), n, q), "number of bulbs",
                      "%d of %d households have %d bulbs" % (
                          (count == c).sum(), n, c))


def dark(case, sky, h):
    """Whether the irradiance is certainly under, or over, the threshold."""
    v = float(np.asarray(sky).reshape(-1)[h if case["each"] else 0])
    return (v < 60.0) if case["std"] == 0 else None


def follow(case, ctx, data, left, new, active, sky, durations, k):
    for (h, b), s in left.items():
        on = bool(new[h, b])
        if active[h] == 0:
            left[h, b] = {0}
            continue
        out = {max(0, x - 1) for x in s}
        may = data.effective[active[h]] > 0
        sure = may and case["mode"] == "certain" and dark(case, sky, h)
        if 0 in out and may:
            out |= durations
            if sure and 0 not in durations:
                out.discard(0)
        left[h, b] = {x for x in out if (x > 0) == on}
        ctx.check(left[h, b], "bulb", "a bulb of household %d is %s after %d "
                  "steps with %d active occupants at %s W/m2; it had %s steps "
                  "left, and the durations are %s" % (
                      h, "on" if on else "off", k, active[h], show(sky),
                      sorted(s), sorted(durations)))
        ctx.cover(case["mode"], on, may, sure, len(s) > 1)


def frequency(case, ctx, data, there, new, active, sky):
    """Which bulbs are switched on in the first step."""
    ctx.probe("frequency tests")
    v = np.asarray(sky, dtype=float)
    for x in np.unique(v):
        rows = there & ((v == x)[:, None] if v.ndim else True)
        if case["std"] == 0:
            low = float(x < 60)
        else:
            low = .5 * (1 + math.erf((60 - x) / case["std"] / 2 ** .5))
        a = data.effective[active[0]] * data.scale * 2.30258509299404
        q = (low + .05 * (1 - low)) * a * -math.expm1(-1 / a) \
            if a > 0 else 0.0
        q *= data.longer(0)
        got = int(new[rows].sum())
        # the bulbs of a household share its threshold
        n = int(rows.sum())
        ok = near(got, n, q) if case["std"] == 0 else abs(
            got - n * q) <= 6.5 * (9 * n * .25) ** .5 + 4
        ctx.check(ok, "frequency", "%d of %d bulbs are switched on at %s "
                  "W/m2 with the probability %.5f" % (got, n, x, q))
