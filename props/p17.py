"""P17: the weather is the one of the data at the simulated time."""
import datetime
import math
import os
import random
import shutil

import numpy as np

from props.p12 import near
from sim import simenv
from sim.fakedata import random_rows
from sim.simenv import (DT, NOTABLE, TD, Rng, equal, random_start, rs, show,
                        start_of)

shared, populate, prepare = simenv.shared, simenv.populate, simenv.prepare
CASES = {"quick": 640, "thorough": 60000}
QUICK_S, THOROUGH_S = 100, 1500
CPU_LIMIT = 120
RULE = ("A case simulates the weather of a seeded dataset, place and start, "
        "with records lost as faults, or of CREST with coarse or extreme "
        "random draws; non-trivial if the sequence of values is new.")
STATES = "distinct (simulator, option, event) tuples"
ASSUMPTIONS = ["the random numbers come from numpy.random",
               "frequencies are compared up to 6.5 standard deviations"]
SHRINK = ["k", "rate", "lost", "sub"]
KINDS = ["linear", "linear", "previous", "next", "nearest", "zero", "slinear",
         "cubic", "quadratic", 0, 1]


def generate(rng, i, tier):
    kind = rng.choice(["real", "real", "file", "interp", "interp", "sky",
                       "sky", "climate", "climate"])
    c = {"kind": kind, "salt": rng.randrange(10 ** 6), "sub": 0, "lost": 0,
         "rate": 0, "k": 0}
    if kind in ("real", "interp"):
        c.update(start=random_start(rng, rng.choice([60, 900, 3600, 1]), True,
                                    wide=True),
                 grid=rng.choice([10, 15, 60, 60, 180]),
                 before=rng.choice([0, 0, 1, 30]), how=rng.choice(KINDS),
                 step=rng.choice([30, 60, 600, 900, 3600, 5400]),
                 lost=rng.choice([0, 0, .1, .4]),
                 k=rng.choice([1, 5, 30, 70]), end=rng.random() < .4,
                 late=rng.random() < .05, extra=rng.random() < .5,
                 name=rng.choice(["irradiance", "radiation_global"]))
        if kind == "real":
            c["start"]["t"] = c["start"]["t"][:16] + ":00"
        return c
    if kind == "file":
        c.update(start=random_start(rng, 3600, True, wide=True), grid=60,
                 before=rng.choice([0, 1, 30]), lost=rng.choice([0, 0, .2]),
                 k=rng.choice([1, 5, 30]), source=rng.choice(
                     ["ninja", "ninja", "open"]),
                 country=rng.choice(sorted(COUNTRIES)),
                 weight=rng.choice(["population", "land_area"]))
        return c
    c.update(start=random_start(rng, 60, False, NOTABLE + [
        "2016-02-28", "2016-02-29", "2016-12-30", "2016-12-31",
        "2012-12-30"]),
             lat=rng.choice([52.8, 47.0, 10.0, -33.0, 0.0, 60.0]),
             lon=rng.choice([-1.2, 0.0, 8.0, 13.0]),
             meridian=rng.choice([0, 15]), summer=rng.random() < .5,
             n=rng.choice([1, 2, 5, 11]),
             mode=rng.choice(["zeros", "dense", "perm", "edge", "stay"]),
             ar=rng.choice([0, .81, .5, -.4]), ma=rng.choice([0, .62, -.3]),
             sd=rng.choice([0, 0, 2.4, .5]), coin=rng.random() < .8)
    if rng.random() < .3:
        c["start"]["z"] = rng.choice(simenv.ZONES)
    if kind == "sky":
        c.update(k=rng.choice([5, 120, 1440, 3000]),
                 rate=rng.choice([0, 0, .1]))
    else:
        c.update(k=1440 * rng.choice([1, 2, 3]) + rng.choice([0, 1, 700]))
    return c


def shrinks(case):
    from sim.core import generic_shrinks
    for c in generic_shrinks(case, SHRINK):
        if c["k"] > 0:
            yield c


def execute(case, ctx):
    with Rng(ctx, case["rate"], case["seed"]):
        np.random.seed(case["seed"] % 2 ** 32)
        {"real": real, "file": from_file, "interp": interp, "sky": sky,
         "climate": climate}[case["kind"]](case, ctx)


# --------------------------------------------------------------- recorded data

def utc(t):
    if t.tzinfo is None:
        return t
    return t.astimezone(datetime.timezone.utc).replace(tzinfo=None)


def steady(t, days):
    """Whether the clocks of the place are not changed around these days."""
    if t.tzinfo is None:
        return True
    return len({(t + TD(days=d)).utcoffset()
                for d in range(-7, int(days) + 3)}) == 1


def records(case, start):
    """The recorded times, in UTC, and values."""
    step = TD(minutes=case["grid"])
    first = utc(start).replace(minute=0, second=0, microsecond=0)
    first -= TD(hours=first.hour % 3) + case["before"] * step
    r = rs(case["salt"], "records")
    n = case["before"] + 200
    t = [first + i * step for i in range(n)]
    v = {"outside_temperature": np.round(30 * r.random_sample(n) - 9, 3),
         case["name"]: np.round(900 * r.random_sample(n), 3)}
    if case["extra"]:
        v["wind_speed"] = np.round(20 * r.random_sample(n), 3)
    for x in v.values():
        x[r.random_sample(n) < case["lost"]] = math.nan
    if case["late"]:
        # the data start after the simulation
        k = sum(x <= utc(start) for x in t)
        t, v = t[k:], {a: b[k:] for a, b in v.items()}
    elif case["end"]:
        k = sum(x <= utc(start) for x in t) + 1 + case["salt"] % 9
        t, v = t[:k], {a: b[:k] for a, b in v.items()}
    return t, v


def loader(case, ctx, t, v):
    from demod.datasets.base_loader import ClimateLoader

    class Data(ClimateLoader):
        country, DATASET_NAME = "nowhere", "climate"
        step_size = TD(minutes=case["grid"])

        def __init__(self):
            self.parsed_path_climate = os.path.join(ctx.root, "climate")
            shutil.rmtree(self.parsed_path_climate, ignore_errors=True)
            os.makedirs(self.parsed_path_climate)

        def _warn_could_not_load_parsed(self, *a, **kw):
            pass

        def _parse_historical_climate_data(self):
            return dict({k: x.copy() for k, x in v.items()}, datetime=np.array(
                [np.datetime64(x, "s") for x in t]))
    return Data()


def lost(case, ctx, v):
    n = int(sum(np.isnan(x).sum() for x in v.values()))
    if n:
        ctx.fault("lost record", n)


def real(case, ctx):
    from demod.simulators.weather_simulators import RealClimate
    ctx.real.update(["RealClimate", "ClimateLoader"])
    start = start_of(case["start"])
    if not steady(start, case["k"] * case["grid"] / 1440):
        ctx.probe("clock change")
        return
    t, v = records(case, start)
    lost(case, ctx, v)
    data = loader(case, ctx, t, v)
    step, u = TD(minutes=case["grid"]), utc(start)
    if case["late"]:
        refused(ctx, "a start before the data",
                lambda: RealClimate(data=data, start_datetime=start))
        return
    if case["salt"] % 4 == 0:
        # the second load reads the saved data
        data.load_historical_climate_data(start)
    sim = RealClimate(data=data, start_datetime=start)
    i = max(k for k, x in enumerate(t) if x <= u)
    for k in range(case["k"] + 1):
        got = (float(sim.get_outside_temperature()),
               float(sim.get_irradiance()))
        want = (v["outside_temperature"][i + k], v[case["name"]][i + k])
        ctx.check(equal(got, tuple(map(float, want))), "record", "%s at %s "
                  "where the record of %s is %s" % (
                      show(got), start + k * step, t[i + k], show(want)))
        ctx.check(sim.current_time == start + k * step, "time", "%s instead "
                  "of %s" % (sim.current_time, start + k * step))
        ctx.ev(k, simenv.digest(got))
        if i + k + 1 == len(t):
            ctx.cover("real", "end")
            refused(ctx, "a step after the last record", sim.step)
            break
        sim.step()
    ctx.cover("real", case["name"], case["grid"], case["lost"] > 0)
    ctx.sim_seconds += step.total_seconds() * case["k"]


COUNTRIES = {"germany": "DE", "switzerland": "CH", "england": "GB"}
NINJA = ["precipitation", "temperature", "irradiance_surface",
         "irradiance_toa", "snowfall", "snow_mass", "cloud_cover",
         "air_density"]
OPEN = ["temperature", "radiation_direct_horizontal",
        "radiation_diffuse_horizontal"]


def write_file(case, t):
    """The raw data as it is published, and what it says of the place."""
    import demod.datasets
    r = rs(case["salt"], "file")
    base = os.path.dirname(demod.datasets.__file__)
    mine = {}

    def column(top, low=0):
        x = np.round(low + (top - low) * r.random_sample(len(t)), 3)
        x[r.random_sample(len(t)) < case["lost"]] = math.nan
        return x

    def cells(x):
        return ["" if math.isnan(y) else "%.3f" % y for y in x]

    if case["source"] == "open":
        base = os.path.join(base, "OpenPowerSystems")
        names, cols = ["utc_timestamp"], [
            [x.strftime("%Y-%m-%dT%H:%M:%SZ") for x in t]]
        for country, code in sorted(COUNTRIES.items()):
            for n in OPEN:
                x = column(30, -9) if n == "temperature" else column(700)
                names.append(code + "_" + n)
                cols.append(cells(x))
                if country == case["country"]:
                    mine[n] = x
        path, head = os.path.join(base, "raw_data", "weather_data.csv"), []
        mine = {"outside_temperature": mine[OPEN[0]],
                "irradiance": mine[OPEN[1]] + mine[OPEN[2]]}
    else:
        base = os.path.join(base, "RenewablesNinja")
        names, cols = ["time"], [
            [x.strftime("%Y-%m-%d %H:%M:%S") for x in t]]
        for n in NINJA:
            mine[n] = column(30, -9) if n == "temperature" else column(900)
            names.append(n)
            cols.append(cells(mine[n]))
        path = os.path.join(base, "raw_data", "%s_%s.csv" % (
            COUNTRIES[case["country"]], case["weight"]))
        head = ["# Units: see below", "# version, of the file"]
        mine = dict(mine, outside_temperature=mine["temperature"],
                    irradiance=mine["irradiance_surface"])
        mine = {n: mine[n] for n in (
            "outside_temperature", "irradiance", "precipitation", "snowfall",
            "snow_mass", "air_density")}
    shutil.rmtree(os.path.join(base, "parsed_data"), ignore_errors=True)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write("\n".join(head + [",".join(names)] + [
            ",".join(x) for x in zip(*cols)]) + "\n")
    return mine


def from_file(case, ctx):
    """The weather of the published files of a country."""
    from demod.simulators.weather_simulators import RealClimate
    ctx.real.update(["RealClimate", "parsers of climate files"])
    start = start_of(case["start"])
    if not steady(start, 4):
        ctx.probe("clock change")
        return
    first = utc(start).replace(minute=0) - TD(hours=case["before"])
    t = [first + i * TD(hours=1) for i in range(case["before"] + 80)]
    v = write_file(case, t)
    lost(case, ctx, v)
    if case["source"] == "open":
        from demod.datasets.OpenPowerSystems.loader import \
            OpenPowerSystemClimate
        make = lambda: OpenPowerSystemClimate(case["country"])
    else:
        from demod.datasets.RenewablesNinja.loader import \
            NinjaRenewablesClimate
        make = lambda: NinjaRenewablesClimate(
            case["country"], weighted_type=case["weight"])
    i = max(k for k, x in enumerate(t) if x <= utc(start))
    for again in range(2):
        got = make().load_historical_climate_data(start)
        for n, x in v.items():
            ctx.check(n in got and len(got[n]) == len(t) - i and
                      np.allclose(np.asarray(got[n], float), x[i:], 1e-9,
                                  1e-9, equal_nan=True), "file",
                      "%s of %s is not that of its file" % (
                          n, case["country"]))
        ctx.check(all(np.datetime64(x) == y for x, y in zip(
            t[i:], got["datetime"])), "file", "the times are not those of "
            "the file")
    sim = RealClimate(data=make(), start_datetime=start)
    for k in range(case["k"] + 1):
        now = (float(sim.get_outside_temperature()),
               float(sim.get_irradiance()))
        want = (float(v["outside_temperature"][i + k]),
                float(v["irradiance"][i + k]))
        ctx.check(equal(now, want, 1e-9), "record", "%s at %s where the file "
                  "of %s says %s" % (show(now), start + TD(hours=k),
                                     case["country"], show(want)))
        ctx.ev(k, simenv.digest(now))
        sim.step()
    ctx.cover("file", case["source"], case["country"], case["lost"] > 0)
    ctx.sim_seconds += 3600 * case["k"]


def refused(ctx, what, call):
    ctx.fault("time without data")
    try:
        call()
    except (ValueError, StopIteration):
        return
    ctx.fail("data", "%s is not refused" % what)


def interp(case, ctx):
    from demod.simulators.weather_simulators import RealInterpolatedClimate
    ctx.real.update(["RealInterpolatedClimate", "ClimateLoader"])
    start = start_of(case["start"])
    how = case["how"]
    if how in ("cubic", "quadratic"):
        case = dict(case, lost=0)
    step = TD(seconds=case["step"])
    if not steady(start, case["k"] * case["step"] / 86400):
        ctx.probe("clock change")
        return
    t, v = records(case, start)
    lost(case, ctx, v)
    data = loader(case, ctx, t, v)
    make = lambda: RealInterpolatedClimate(
        data=data, start_datetime=start, step_size=step,
        interpolation_kind=how)
    if case["late"]:
        refused(ctx, "a start before the data", make)
        return
    # the data which the simulator gets
    i = max([k for k, x in enumerate(t) if x <= utc(start)])
    need = {"cubic": 4, "quadratic": 3}.get(how, 2)
    if len(t) - i < need:
        ctx.probe("too few records")
        return
    sim = make()
    for k in range(case["k"] + 1):
        now = utc(start) + k * step
        ctx.check(utc(sim.current_time) == now, "time", "%s instead of %s"
                  % (sim.current_time, now))
        for name, x in v.items():
            got = float(getattr(sim, "get_" + name)())
            want = value(how, t, x, now)
            if want is not None:
                ctx.check(any(equal(got, float(w), 1e-9) for w in want),
                          "interpolation", "%s is %s at %s UTC, the records "
                          "give %s (%s)" % (name, got, now, want, how))
            ctx.ev(k, simenv.digest(got))
        ctx.cover("interp", how, now in t, case["lost"] > 0)
        if now + step > t[-1]:
            ctx.cover("interp", "end")
            refused(ctx, "a step after the last record", sim.step)
            break
        sim.step()
    ctx.sim_seconds += case["step"] * case["k"]


def value(how, t, x, now):
    """The interpolated values which are right, or None if any is."""
    j = max(k for k, y in enumerate(t) if y <= now)
    if t[j] == now:
        # a lost record only blurs its own neighbourhood
        return (x[j],) if not math.isnan(x[j]) and (
            j + 1 == len(t) or not math.isnan(x[j + 1])) and (
            j == 0 or not math.isnan(x[j - 1])) or how in (
                "previous", "zero", 0) else None
    f = (now - t[j]) / (t[j + 1] - t[j])
    if how in ("linear", "slinear", 1):
        return (x[j] + f * (x[j + 1] - x[j]),)
    if how in ("previous", "zero", 0):
        return (x[j],)
    if how == "next":
        return (x[j + 1],)
    if how == "nearest":
        return (x[j],) if f < .5 else (x[j + 1],) if f > .5 else \
            (x[j], x[j + 1])
    return None


# ----------------------------------------------------------------- CREST's sky

class Sky:
    def __init__(self, case):
        self.case = case
        n = case["n"]
        self.values = np.round(np.linspace(1.0, .2, n), 3) if n > 1 else \
            np.array([.9])
        self.values = rs(case["salt"], "values").permutation(self.values)
        self.first = float(self.values[case["salt"] % n])
        self.tpm = np.eye(n) if case["mode"] == "stay" else random_rows(
            rs(case["salt"], "clear"), (n, n), case["mode"])

    def load_clearness_tpms(self):
        return self.tpm.copy(), self.values.copy(), TD(minutes=1)

    def load_geographic_data(self):
        c = self.case
        return {"country": "x", "latitude": c["lat"], "longitude": c["lon"],
                "meridian": c["meridian"],
                "use_daylight_saving_time": c["summer"]}

    def load_temperatures_arma(self):
        c = self.case
        return {"T_mean": 9.3, "T_std": 6.5, "T_shift": -115, "AR": c["ar"],
                "MA": c["ma"], "SD": c["sd"]}


def clear(case, t):
    """The irradiance on the ground under a clear sky, as CREST has it."""
    d = t.timetuple().tm_yday
    rad = math.pi / 180
    b = 360 * (d - 81) / 364 * rad
    eot = 9.87 * math.sin(2 * b) - 7.53 * math.cos(b) - 1.5 * math.sin(b)
    corr = 4 * (case["lon"] - case["meridian"]) + eot
    hour = t.hour + t.minute / 60
    if case["summer"] and 87 <= d < 304:
        hour -= 1
    angle = 15 * (12 - (hour + corr / 60)) * rad
    decl = 23.45 * math.sin(2 * math.pi * (284 + d) / 365.25) * rad
    lat = case["lat"] * rad
    s = math.cos(lat) * math.cos(decl) * math.cos(angle) + \
        math.sin(lat) * math.sin(decl)
    if s <= 0:
        return 0.0
    g = 1367 * (1 + .034 * math.cos(2 * math.pi * d / 365.25))
    depth = .174 + .035 * math.sin(2 * math.pi * (d - 100) / 365)
    return g * math.exp(-depth / s) * s


def sky(case, ctx):
    from demod.simulators.weather_simulators import CrestIrradianceSimulator
    ctx.real.add("CrestIrradianceSimulator")
    data, start = Sky(case), start_of(case["start"])
    if case["salt"] % 7 == 0:
        ctx.fault("wrong step size")
        try:
            CrestIrradianceSimulator(data=data, initial_clearness=data.first,
                                     step_size=TD(minutes=2))
            ctx.fail("step", "another step size than the data's is accepted")
        except ValueError:
            pass
    sim = CrestIrradianceSimulator(data=data, initial_clearness=data.first,
                                   start_datetime=start)
    index = {float(x): j for j, x in enumerate(data.values)}
    last, counts = None, np.zeros(data.tpm.shape)
    midnight = start.hour == start.minute == 0
    for k in range(case["k"] + 1):
        now = start + k * TD(minutes=1)
        c, got = float(sim.get_current_clearness()), float(
            sim.get_irradiance())
        ctx.check(c in index, "clearness", "%s is not a clearness" % c)
        if k == 0 and midnight:
            ctx.check(c == data.first and got == 0, "start", "clearness %s "
                      "with %s W/m2 at midnight" % (c, got))
        else:
            want = c * clear(case, now - TD(minutes=1))
            ctx.check(equal(got, want, 1e-7), "irradiance", "%s W/m2 at %s "
                      "with a clearness of %s, which is %s" % (
                          got, now, c, want))
            ctx.cover("sky", want > 0, case["summer"], now.month)
        if last is not None:
            counts[index[last], index[c]] += 1
            ctx.check(data.tpm[index[last], index[c]] > 0, "transition",
                      "the clearness changes from %s to %s" % (last, c))
        last = c
        sim.step()
    ctx.ev(simenv.digest(counts))
    if not case["rate"]:
        ctx.probe("frequency tests")
        for a in range(len(counts)):
            m = counts[a].sum()
            for b in range(len(counts)):
                ctx.check(near(counts[a, b], m, data.tpm[a, b]), "frequency",
                          "%d of %d changes from %s to %s, with the "
                          "probability %s" % (
                              counts[a, b], m, data.values[a], data.values[b],
                              data.tpm[a, b]))
    ctx.sim_seconds += 60 * case["k"]


class Coin:
    """Normal draws of one standard deviation, up or down."""

    def __init__(self, seed, ctx):
        self.py, self.ctx, self.saved = random.Random(seed), ctx, {}

    def z(self, size=None):
        if size is None:
            self.ctx.fault("coarse normal draw")
            return 1.0 if self.py.random() < .4 else -1.0
        return np.array([self.z() for _ in range(int(np.prod(size)))]
                        ).reshape(size)

    def __enter__(self):
        new = {"randn": lambda *d: self.z(d or None),
               "standard_normal": lambda size=None: self.z(size),
               "normal": lambda loc=0.0, scale=1.0, size=None:
               loc + scale * self.z(size)}
        for k, f in new.items():
            self.saved[k] = getattr(np.random, k)
            setattr(np.random, k, f)

    def __exit__(self, *a):
        for k, f in self.saved.items():
            setattr(np.random, k, f)


def climate(case, ctx):
    if case["coin"]:
        with Coin(case["seed"], ctx):
            weather(case, ctx)
    else:
        weather(case, ctx)


def weather(case, ctx):
    from demod.simulators.weather_simulators import CrestClimateSimulator
    ctx.real.update(["CrestClimateSimulator", "CrestIrradianceSimulator"])
    data, start = Sky(case), start_of(case["start"])
    sim = CrestClimateSimulator(data=data, initial_clearness=data.first,
                                start_datetime=start)
    days, minute = {}, TD(minutes=1)
    for k in range(case["k"] + 1):
        now = start + k * minute
        got = float(sim.get_irradiance())
        top = clear(case, now - minute) if k or now.hour or now.minute else 0.0
        if top < 1e-9:
            ctx.check(got < 1e-8, "night", "%s W/m2 at %s" % (got, now))
        else:
            c = got / top
            ctx.check(np.abs(data.values - c).min() < 1e-7, "irradiance",
                      "%s W/m2 at %s, of %s under a clear sky, with the "
                      "clearnesses %s" % (got, now, top, show(data.values)))
        day = days.setdefault(now.date(), (np.zeros(1440), np.full(
            1440, math.nan)))
        m = now.hour * 60 + now.minute
        day[0][m], day[1][m] = got, float(sim.get_outside_temperature())
        if k < case["k"]:
            sim.step()
    ctx.sim_seconds += 60 * case["k"]
    means, z = [], []
    for d, (irr, temp) in sorted(days.items()):
        ctx.check(not np.isnan(temp[(start.hour * 60 + start.minute)
                                    if d == start.date() else 0]),
                  "temperature", "none on %s" % d)
        ctx.ev(str(d), simenv.digest(irr), simenv.digest(temp))
        # the sun was not up before the start, and the day is complete
        light = np.array([clear(case, DT(d.year, d.month, d.day)
                                + (m - 1) * minute) > 0 for m in range(1440)])
        if not (np.isnan(temp) & light).any() and not np.isnan(temp[-1]):
            means.append((d, one_day(case, ctx, data, d, irr, temp, z)))
    seasonal(case, ctx, start, means, z)


def one_day(case, ctx, data, d, irr, temp, z):
    """Checks the temperatures of a day, returns their middle."""
    up = irr > 0
    rise, sset = np.where(up)[0][[0, -1]]
    ratio = np.where(up, np.cumsum(irr) / np.maximum(np.cumsum(up), 1), 0)
    top = int(np.argmax(np.where(up, ratio, -1)))
    r = ratio / ratio[top]
    # T = low A + high B
    m = np.arange(1440)
    high = np.where(m <= top, r, 1 - 1.7 * (1 - r))
    low = 1 - high
    day = np.arange(rise, sset)
    if high[day].max() - high[day].min() < 1e-6:
        ctx.probe("flat day")
        return None
    (a, b), _, _, _ = np.linalg.lstsq(
        np.stack([low[day], high[day]], axis=1), temp[day], rcond=None)
    off = np.abs(low * a + high * b - temp)[day].max()
    ctx.check(off < 1e-6, "day", "the temperatures of %s differ by %s from "
              "the ones that follow from the irradiance" % (d, off))
    energy = irr.sum() / 1000 / 60
    dev = b - a - (20 * math.log10(energy + 2.5) - 7)
    z.append(dev)
    if case["coin"]:
        ctx.check(abs(abs(dev) - 1) < 1e-6, "range", "temperatures "
                  "from %s to %s on %s with %s kWh/m2" % (a, b, d, energy))
    # the nights
    cool = (b - a) * (high[sset] - high[rise]) / (1440 - up.sum())
    evening = np.diff(temp[sset - 1:])
    morning = np.diff(np.concatenate([[temp[-1]], temp[:rise]]))
    step = np.concatenate([evening, morning[~np.isnan(morning)]]) + cool
    width = .025 * (data.values.max() - data.values.min()) \
        if case["mode"] != "stay" else 0
    ctx.check(bool((np.abs(step) <= width + 1e-6).all()), "night", "the "
              "temperature changes by %s in a minute of the night of %s, in "
              "which it has to fall by %s up to %s" % (
                  show(step - cool), d, cool, width))
    ctx.cover("climate", case["mode"], top < sset - 1, cool > 0)
    return (a + b) / 2


def seasonal(case, ctx, start, means, z):
    """The middles of the days are the ones of the season and the process."""
    if not case["coin"]:
        if len(z):
            ctx.check(abs(sum(z)) <= 6.5 * len(z) ** .5, "range", "the "
                      "ranges of temperatures differ by %s" % show(z))
    if any(x is None for _, x in means) or not means:
        return
    sd, ar, ma = case["sd"], case["ar"], case["ma"]
    if sd and not (case["coin"] and means[0][0] == start.date()):
        return
    # the states (r, ar) of the process
    states = {(0.0, 0.0), (float(sd), 0.0), (-float(sd), 0.0)}
    for d, x in means:
        new = set()
        # the season of this day or of the one before
        for back in (0, 1):
            n = (d - TD(days=back)).timetuple().tm_yday
            td = 9.3 + 6.5 * math.sin(2 * math.pi * (n - 115) / 365)
            for r, p in states:
                for e in {-float(sd), float(sd)}:
                    if abs(td + p * ar + r * ma + e - x) < 1e-6:
                        new.add((e, round(p * ar + e, 9)))
        ctx.check(new, "mean", "the temperatures of %s are around %s, which "
                  "does not follow from the season and the previous day" % (
                      d, x))
        states = new
        ctx.cover("mean", sd > 0, ar != 0, ma != 0)
