"""Synthetic datasets with the interface of the loaders.

Contents depend on the salt and on the arguments only, never on the order of
the calls, and every call hands out fresh arrays as the real loaders do.
"""
import datetime

import numpy as np

from .simenv import rs

TD = datetime.timedelta


def records_from(time):
    """The start of the records for the year of an ISO time."""
    return "%04d-12-01" % (int(time[:4]) - 1)


def key_of(subgroup):
    return tuple(sorted((k, str(v)) for k, v in subgroup.items()
                        if v is not None))


def random_rows(r, shape, mode):
    """Probability rows: 'perm' one certain outcome, 'zeros' a few possible
    outcomes, 'dense' all possible, 'edge' rows summing to just under one."""
    n = shape[-1]
    if mode == "perm":
        out = np.zeros(shape)
        flat = out.reshape(-1, n)
        flat[np.arange(len(flat)), r.randint(0, n, len(flat))] = 1.0
        return out
    out = r.random_sample(shape) + .02
    if mode in ("zeros", "edge"):
        keep = r.random_sample(shape) < .45
        flat = keep.reshape(-1, n)
        flat[np.arange(len(flat)), r.randint(0, n, len(flat))] = True
        out = out * keep
    out /= out.sum(axis=-1, keepdims=True)
    if mode == "edge":
        out *= 1 - 5e-7     # what the library's own check accepts as valid
    return out


class FakeTOU:
    """Activity data: first order, with durations, and sparse."""

    refresh_time = datetime.time(4)
    step_size = TD(minutes=1)

    def __init__(self, salt=0, mode="zeros", labels=("sleeping", "away",
                 "active", "cooking"), n_times=144, n_dur=12,
                 previous=False, relabel=False, refresh=None):
        self.salt, self.mode, self.n_times = salt, mode, n_times
        self.base_labels, self.n_dur = list(labels), n_dur
        self.previous, self.relabel = previous, relabel
        if refresh is not None:
            self.refresh_time = refresh
        self._memo = {}

    def labels(self, subgroup):
        k = key_of(subgroup)
        out = list(self.base_labels)
        if self.relabel:
            r = rs(self.salt, "lab", k)
            out = [out[i] for i in r.permutation(len(out))]
        return np.array(out)

    def _make(self, what, subgroup):
        k = (what, key_of(subgroup))
        if k in self._memo:
            return self._memo[k].copy()
        r = rs(self.salt, what, key_of(subgroup))
        n, d = len(self.base_labels), self.n_dur
        if what in ("tpm", "tpm_dur"):
            out = random_rows(r, (self.n_times, n, n), self.mode)
            if what == "tpm_dur":
                # a semi-Markov state ends by going to another one
                for t in range(self.n_times):
                    np.fill_diagonal(out[t], 0.0)
                s = out.sum(axis=-1)
                t, i = np.where(s <= 0)
                out[t, i, (i + 1) % n] = 1.0
                out /= out.sum(axis=-1, keepdims=True)
                if self.mode == "edge":
                    out *= 1 - 5e-7
        elif what == "dur":
            shape = (self.n_times, n, n, d) if self.previous else (
                self.n_times, n, d)
            out = np.zeros(shape)
            out[..., 1:] = random_rows(r, shape[:-1] + (d - 1,), self.mode)
        elif what == "pdf":
            out = random_rows(r, (n,), "dense")
        elif what == "pdf_dur":
            out = np.zeros((n, d))
            out[:, 1:] = random_rows(r, (n, d - 1), self.mode)
        self._memo[k] = out
        return out.copy()

    def load_tpm(self, subgroup):
        return (self._make("tpm", subgroup), self.labels(subgroup),
                self._make("pdf", subgroup))

    def load_tpm_with_duration(self, subgroup):
        return (self._make("tpm_dur", subgroup), self._make("dur", subgroup),
                self.labels(subgroup), self._make("pdf", subgroup),
                self._make("pdf_dur", subgroup))


class FakeCrestTOU(FakeTOU):
    """Occupancy data of households: labels are 10 * at home + active."""

    refresh_time = datetime.time(0)

    def __init__(self, salt=0, mode="zeros", relabel=False, refresh=None,
                 sizes=(1, 2, 3), pdf=None, **kw):
        super().__init__(salt, mode, relabel=relabel, refresh=refresh, **kw)
        self.sizes = list(sizes)
        self.pdf = pdf or [1.0 / len(sizes)] * len(sizes)
        self._nodes = {}

    def _codes(self, n):
        return [10 * a + b for a in range(n + 1) for b in range(n + 1)]

    def load_population_subgroups(self, *a, **kw):
        return [{"n_residents": n} for n in self.sizes], list(self.pdf), 1000.

    def load_tpm(self, subgroup):
        self.base_labels = self._codes(subgroup["n_residents"])
        lab = self.labels(subgroup).astype(int)
        return (self._make("tpm", subgroup), lab,
                self._make("pdf", subgroup))

    def load_sparse_tpm(self, subgroup):
        raise NotImplementedError("no sparse data here")


class FakeSparseTOU:
    """Sparse household data, one set of states per day type."""

    refresh_time = datetime.time(4)
    act_names = ["HWH", "HOH", "active"]

    def __init__(self, salt=0, mode="zeros", vary_states=False, n_times=144,
                 drop=False, dead=(), many=False):
        self.salt, self.mode, self.vary = salt, mode, vary_states
        self.n_times, self.drop = n_times, drop
        self.dead, self.many = dead, many
        self._memo = {}

    def codes(self, subgroup):
        n = subgroup["n_residents"]
        out = [a + 7 * b + 49 * c for a in range(n + 1)
               for b in range(n + 1 - a) for c in range(n + 1 - a - b)]
        if self.many:
            out = [int(c) for c in rs(self.salt, "many").permutation(
                7 ** 5)[:300]]
        if self.vary:
            r = rs(self.salt, "codes", key_of(subgroup))
            out = [out[i] for i in r.permutation(len(out))]
            if self.drop:
                out = out[:max(2, len(out) - 2)]
        return np.array(out, dtype=np.uint64)

    def dense(self, subgroup):
        k = key_of(subgroup)
        if k not in self._memo:
            n = len(self.codes(subgroup))
            self._memo[k] = random_rows(
                rs(self.salt, "sparse", k), (self.n_times, n, n), self.mode)
            if self.dead:
                # states from which nothing is known at some times
                r = rs(self.salt, "dead", k)
                gone = r.random_sample((self.n_times, n)) < .2
                gone[:, 0] &= "first" in self.dead
                self._memo[k][gone] = 0
        return self._memo[k]

    def load_sparse_tpm(self, subgroup):
        from demod.utils.sparse import SparseTPM
        d = self.dense(subgroup)
        t, i, j = np.nonzero(d)
        n = d.shape[1]
        tpm = SparseTPM(t, i, j, d[t, i, j], n_states=n,
                        n_times=self.n_times)
        pdf = random_rows(rs(self.salt, "spdf", key_of(subgroup)), (n,),
                          "dense")
        return tpm, self.codes(subgroup), np.array(self.act_names), pdf

    def load_population_subgroups(self, *a, **kw):
        return [{"n_residents": 1}, {"n_residents": 2}], [.5, .5], 1000


# ------------------------------------------------------------------ appliances

def appliance_rows(salt, n=7, water=True, delays=True, integral=True):
    """A small set of appliances with every feature."""
    r = rs(salt, "apps")
    acts = ["level", "active_occupancy", "cooking", "laundry",
            "self_washing", "watching_tv"]
    rows = []
    for i in range(n):
        act = acts[i % len(acts)]
        uses_water = water and act == "self_washing"
        dur = int(r.choice([1, 2, 3, 5, 8, 13, 30]))
        rows.append({
            "name": "app_%d" % i, "type": "kind_%d" % i,
            "equipped_prob": float(r.choice([1.0, .9, .6])),
            "related_activity": act,
            "inactive_switch_off": bool(
                r.random_sample() < .4 and act != "level"),
            "mean_elec_consumption": float(r.randint(5, 3000)),
            "mean_water_consumption": float(r.choice([2., 4., 6.5, 10.]))
            if uses_water or (water and r.random_sample() < .2) else 0.0,
            "uses_water": uses_water,
            "mean_duration": float(dur) if integral else dur + .5,
            "after_cycle_delay": int(r.choice([0, 0, 1, 4, 20]))
            if delays else 0,
            "standby_consumption": int(r.choice([0, 1, 7])),
            "poisson_sampling_lambda_liters": float(
                r.choice([3., 10., 40.])) if uses_water else 0.0,
            "switch_on_prob_crest": float(r.choice([.02, .1, .4, 1.0])),
            "mean_power_factor": 1.0, "heat_gains_ratio": 1.0,
            "target_cycle_year": float(r.randint(50, 3000)),
        })
    return rows


def as_dict(rows, extra=()):
    out = {"number": len(rows)}
    for k in rows[0]:
        if k in ("previous_activity", "previous_appliance_type"):
            out[k] = np.array([x[k] for x in rows], dtype="<U32")
        else:
            out[k] = np.array([x[k] for x in rows])
    return out


class FakeAppliances:
    """Appliance data for all the appliance simulators."""

    step_size = TD(minutes=1)

    def __init__(self, salt=0, rows=None, refresh=datetime.time(4),
                 loads=True, intensity=.3, max_res=5, **kw):
        self.salt, self.refresh_time = salt, refresh
        self.rows = rows or appliance_rows(salt, **kw)
        self.loads, self.intensity, self.max_res = loads, intensity, max_res

    def load_appliance_dict(self):
        return as_dict(self.rows)

    def load_appliance_ownership_dict(self, subgroup):
        r = rs(self.salt, "own", key_of(subgroup))
        out = {}
        for row in self.rows:
            out[row["type"]] = float(r.choice([0.0, .5, 1.0, 1.0]))
        return out

    def activities(self):
        return sorted({r["related_activity"] for r in self.rows})

    def load_activity_probability_profiles(self, subgroup):
        out = {}
        for act in self.activities():
            r = rs(self.salt, "prof", act, key_of(subgroup))
            p = r.random_sample((144, self.max_res + 1)) * self.intensity
            p[r.random_sample(144) < .3] = 0.0
            if act == "level":
                p[:] = self.intensity
            else:
                p[:, 0] = 0.0
            out[act] = p
        return out

    def profile_loads(self):
        """Recorded cycles per appliance type."""
        out = {"switchedON": {}, "full": {}}
        for i, row in enumerate(self.rows):
            r = rs(self.salt, "load", i)
            if row["uses_water"] or r.random_sample() < .4:
                continue
            kind = "full" if row["related_activity"] in (
                "level", "constant") else "switchedON"
            out[kind][row["type"]] = {
                "d%d" % j: np.round(100 + 900 * r.random_sample(
                    r.randint(2, 12)))
                for j in range(r.randint(1, 4))}
        return out

    def load_real_profiles_dict(self, kind):
        return {t: {k: v.copy() for k, v in d.items()}
                for t, d in self.profile_loads()[kind].items()}

    def load_yearly_target_switchons(self, subgroup):
        return {row["type"]: float(row["target_cycle_year"])
                for row in self.rows}

    def load_activity_probabilities(self, subgroup):
        r = rs(self.salt, "actp", key_of(subgroup))
        return {a: .02 + .2 * r.random_sample(144)
                for a in self.activities() + ["eating"]}

    def load_daily_activity_starts(self, subgroup):
        return {a: np.array([.3, .4, .2, .1])
                for a in self.activities() + ["eating"]}


# --------------------------------------------------------------------- lighting

class FakeLighting:
    def __init__(self, salt=0, low=None, high=None, calibration=.05):
        self.salt, self.calibration = salt, calibration
        self.low = np.array(low or [1., 2., 5., 20.])
        self.high = np.array(high or [2., 4., 9., 40.])

    def load_crest_lighting(self):
        n = len(self.low)
        return {"calibration_scalar": self.calibration,
                "effective_occupancy": np.array(
                    [0., 1., 1.5, 1.7, 2.0, 2.1]),
                "durations_cdf": np.cumsum(np.ones(n) / n),
                "durations_minutes_low": self.low.copy(),
                "durations_minutes_high": self.high.copy(),
                "irradiance_threshold_mean": 60.0,
                "irradiance_threshold_std": 10.0}

    def load_bulbs(self):
        return np.array([10, 40, 60]), np.array([.3, .3, .4])

    def load_bulbs_config(self):
        r = rs(self.salt, "bulbs")
        out = r.choice([8., 20., 40., 60.], size=(10, 9))
        for i in range(10):
            out[i, r.randint(1, 10):] = np.nan if self.salt % 2 else 0.0
        return out

    def load_installed_bulbs_stats(self):
        return 6.0, 3.0

    def load_fisher_lighting(self):
        return {"irradiation_threshold_min": 30,
                "irradiation_threshold_max": 60, "individual_light_use": 12}


# ---------------------------------------------------------------------- climate

class FakeClimate:
    country = "nowhere"

    def __init__(self, salt=0, start="2013-12-30", hours=24 * 60, step_h=1,
                 utc_start=True):
        self.salt, self.hours = salt, hours
        self.t0 = datetime.datetime.fromisoformat(start)
        self.step_size = TD(hours=step_h)
        self.step_h = step_h

    def series(self):
        t = np.array([np.datetime64(self.t0, "s")
                      + np.timedelta64(i * self.step_h * 3600, "s")
                      for i in range(self.hours)])
        r = rs(self.salt, "climate")
        return t, np.round(20 * r.random_sample(self.hours) - 5, 3), \
            np.round(800 * r.random_sample(self.hours), 3)

    def load_historical_climate_data(self, start_datetime):
        # as the real loaders: the data in UTC, from the last value before
        # the start time
        s = start_datetime
        if s.tzinfo is not None:
            s = s.astimezone(datetime.timezone.utc).replace(tzinfo=None)
        t, temp, irr = self.series()
        k = int((s - self.t0) / self.step_size)
        k = max(0, k - self.salt % 5)
        return {"datetime": t[k:].copy(), "outside_temperature":
                temp[k:].copy(), "irradiance": irr[k:].copy()}


class FakeSky:
    """Clearness of the sky, geography and temperatures, as CREST has."""

    def __init__(self, salt=0, mode="zeros", n=9, lat=None, summer=True):
        self.salt, self.mode, self.n = salt, mode, n
        r = rs(salt, "sky")
        self.lat = lat if lat is not None else float(r.choice(
            [52.8, 47.0, 10.0, -33.0]))
        self.summer = summer
        self.lon = float(r.choice([-1.2, 8.0, 13.0]))
        self.meridian = float(r.choice([0.0, 15.0]))

    def values(self):
        v = np.linspace(.1, 1.0, self.n)
        v[-2] = .99
        return v

    def load_clearness_tpms(self):
        return (random_rows(rs(self.salt, "clear"), (self.n, self.n),
                            self.mode), self.values(), TD(minutes=1))

    def load_geographic_data(self):
        return {"country": "x", "latitude": self.lat, "longitude": self.lon,
                "meridian": self.meridian,
                "use_daylight_saving_time": self.summer}

    def load_temperatures_arma(self):
        return {"T_mean": 9.3, "T_std": 6.5, "T_shift": -115, "AR": .81,
                "MA": .62, "SD": .5}


# ---------------------------------------------------------------------- heating

class FakeHeating:
    def __init__(self, salt=0, combi=None, deadband=None):
        self.salt, self.combi = salt, combi
        self.deadband = deadband or {"space_heating": 1, "hot_water": 5,
                                     "emitter": 5}

    def load_thermostat_dict(self):
        return {"home_temperatures_cdf": np.array([.25, .5, 1.0]),
                "home_temperatures_values": np.array([18., 20., 22.5]),
                "water_temperatures_cdf": np.array([.5, 1.0]),
                "water_temperatures_values": np.array([50., 58.]),
                "emitter_setpoints": 50.0, "deadband": dict(self.deadband)}

    def load_heating_system_dict(self):
        n = 4
        combi = np.array([True, False, True, False])
        if self.combi is not None:
            combi[:] = self.combi
        return {"equipped_prob": np.full(n, 1.0 / n),
                "name": np.array(["combi", "boiler", "electric", "pump"]),
                "is_combi": combi,
                "fuel_type": np.array(["Mainsgas", "Mainsgas",
                                       "Electricity", "Electricity"]),
                "fuel_flow_rate": np.array([2.3, 1.9, 12.0, 4.0]),
                "flow_rate_to_W": np.array([10900., 10900., 1000., 1000.]),
                "heat_output_sh": np.array([24000., 15000., 12000., 9000.]),
                "heat_output_dhw": np.array([24000., 15000., 12000., 9000.]),
                "standby_power": np.array([8, 8, 0, 5]),
                "pump_power": np.array([120, 120, 0, 60]),
                "cyl_volume": np.array([2, 180, 2, 250]),
                "cyl_loss": np.array([0.2, 2.3, .2, 3.0]), "number": n}

    def load_buildings_dict(self):
        n = 3
        return {"equipped_prob": np.full(n, 1.0 / n),
                "name": np.array(["a", "b", "c"]),
                "out_build_transfer_coef": np.array([300., 180., 90.]),
                "build_int_transfer_coef": np.array([1400., 900., 500.]),
                "ventilation_transfer_coef": np.array([60., 40., 20.]),
                "ext_capacitance": np.array([1.8e7, 1.1e7, 6e6]),
                "int_capacitance": np.array([1.4e7, 8e6, 4e6]),
                "irradiance_multiplier": np.array([2.5, 1.7, .9]),
                "floor_area": np.array([140, 90, 45]),
                "height": np.array([2.4, 2.4, 2.4]),
                "emitters_target_temperature": np.array([50, 50, 50]),
                "emitters_transfer_coef": np.array([220., 150., 80.]),
                "emitters_capacitance": np.array([1.2e5, 8e4, 4e4]),
                "number": n}


class FakeAll(FakeSparseTOU, FakeAppliances, FakeLighting, FakeClimate,
              FakeHeating):
    """Everything a whole load simulation needs."""

    def __init__(self, salt=0, sizes=(1, 2, 3), **kw):
        FakeSparseTOU.__init__(self, salt)
        FakeAppliances.__init__(self, salt, intensity=.2)
        FakeLighting.__init__(self, salt)
        FakeHeating.__init__(self, salt)
        self.sizes = sizes
        FakeClimate.__init__(self, salt, **kw)
        self.climate_step = self.step_size
        self.step_size = TD(minutes=1)
        self.refresh_time = datetime.time(4)

    def load_population_subgroups(self, *a, **kw):
        n = len(self.sizes)
        return [{"n_residents": k} for k in self.sizes], [1. / n] * n, 1000

    def load_historical_climate_data(self, start_datetime):
        s, self.step_size = self.step_size, self.climate_step
        try:
            return FakeClimate.load_historical_climate_data(
                self, start_datetime)
        finally:
            self.step_size = s
