"""Synthetic datasets: loaders whose parsed content is a known function.

``make_loader_class`` returns a loader for a dataset which offers every kind of
data the base loaders know; its parsing methods compute deterministic content
from (salt, version, kind, subgroup), count their calls, and fail when the raw
data is "absent".  They are what stands in for raw survey data.
"""
import datetime
import hashlib
import json
import math
import random

import numpy as np

# the public loading methods, with the arguments they take
SUBGROUP_METHODS_NOTIME = [
    "load_appliance_ownership_dict", "load_yearly_target_switchons",
    "load_yearly_target_consumption", "load_yearly_target_duration",
]
SUBGROUP_METHODS = [
    "load_tpm", "load_tpm_with_duration", "load_sparse_tpm",
    "load_activity_probability_profiles", "load_daily_activity_starts",
    "load_activity_duration", "load_activity_probabilities",
    "load_bulbs_config", "load_installed_bulbs_stats", "load_buildings_dict",
    "load_heating_system_dict", "load_thermostat_dict",
]
PLAIN_METHODS = [
    "load_appliance_dict", "load_clearness_tpms", "load_temperatures_arma",
    "load_geographic_data", "load_fisher_lighting", "load_crest_lighting",
    "load_bulbs",
]
OTHER_METHODS = [
    "load_population_subgroups", "load_real_profiles_dict",
    "load_historical_climate_data",
]
ALL_METHODS = (SUBGROUP_METHODS_NOTIME + SUBGROUP_METHODS + PLAIN_METHODS
               + OTHER_METHODS)

# datasets of which the simulators need these very names
FIXED_NAMES = ["load_historical_climate_data", "load_appliance_dict",
               "load_geographic_data", "load_real_profiles_dict"]

SUBGROUPS = [
    {"n_residents": 1}, {"n_residents": 2}, {"n_residents": 12},
    {"n_residents": 2, "weekday": [1, 2, 3, 4, 5]},
    {"n_residents": 2, "weekday": [6, 7]},
    {"n_residents": 2, "quarter": 1}, {"n_residents": 2, "quarter": None},
    {"household_type": 3, "n_residents": 2},
    {"household_type": 2, "n_residents": 3},
    {"household_type": 3, "n_residents": 2, "weekday": [6, 7], "quarter": 2},
    {"weekday": [1]}, {},
    {"household_type": "couple without children"},
    {"household_type": "couple with children"},
    {"household_type": "couple with children", "region": ["north", "south"]},
    {"household_type": "couple with children", "region": ["north", "south2"]},
]


def strip_time(sub):
    return {k: v for k, v in sub.items() if k not in ("weekday", "quarter")}


def canon(sub):
    return json.dumps(sub, sort_keys=True)


def _rng(*parts):
    h = hashlib.sha256(repr(parts).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "little"))


def _arr(r, *shape):
    n = int(np.prod(shape))
    return np.array([1000. * r.random() for _ in range(n)]
                    ).reshape(shape)


def _pdf(r, n):
    a = _arr(r, n)
    return a / a.sum()


UNUSUAL = ["nan", "inf", "negative", "tiny", "integers", "single", "bytes",
           "empty", "long", "flags"]


def _unusual(r, x, how):
    """The array or number x, with unusual values or of another type."""
    if isinstance(x, dict):
        return {k: _unusual(r, v, how) for k, v in x.items()}
    if isinstance(x, tuple):
        return tuple(_unusual(r, v, how) for v in x)
    if isinstance(x, float) and how in ("negative", "nan", "inf", "tiny"):
        return {"negative": -x, "nan": math.nan, "inf": math.inf,
                "tiny": x * 2.0 ** -900}[how]
    if not isinstance(x, np.ndarray) or x.dtype.kind != "f":
        return x
    x = x.copy()
    some = np.array([r.random() < .4 for _ in range(x.size)],
                    dtype=bool).reshape(x.shape)
    if how in ("nan", "inf"):
        x[some] = math.nan if how == "nan" else math.inf
    elif how == "negative":
        x[some] *= -1
    elif how == "tiny":
        x[some] *= 2.0 ** -900
    elif how == "integers":
        x = (x * 1024).astype(int)
    elif how == "single":
        x = x.astype(np.float32)
    elif how == "bytes":
        x = x.astype(np.uint8) if r.random() < .5 else x.astype(np.int8)
    elif how == "flags":
        x = some
    elif how == "empty":
        x = x[:0]
    elif how == "long":
        x = np.concatenate([x + k for k in range(40)])
    return x


def unusual(seed, x):
    r = _rng("one", seed)
    return _unusual(r, x, r.choice(UNUSUAL))


def content(kind, scale, *key):
    """The content of one item of a dataset, as the parser returns it."""
    c = _content(kind, scale, *key)
    r = _rng("unusual", kind, *key)
    if r.random() > .35 or kind == "load_sparse_tpm":
        return c
    how = r.choice(UNUSUAL)
    if how in ("empty", "long") and kind in (
            "load_population_subgroups", "load_historical_climate_data"):
        return c
    names = r.random() < .4
    c = _unusual(r, c, how)
    if names and isinstance(c, dict) and kind not in FIXED_NAMES:
        # names with spaces and other characters
        c = {n if r.random() < .5 else n + r.choice([" 2", "-b", "\u00e9", ".x",
                                                     "_\u6c34", "%"]): v
             for n, v in c.items()}
    return c


def _content(kind, scale, *key):
    r = _rng(kind, *key)
    big = {"small": 1, "big": 12}[scale]
    if kind in ("load_appliance_ownership_dict",):
        return {n: r.random() for n in ("fridge", "tv", "oven_%d" % (
            r.randrange(9)))}
    if kind.startswith("load_yearly_target"):
        return {n: r.randrange(1, 9999) / 8 for n in (
            "fridge", "tv", "oven_%d" % r.randrange(9), *(
                "app%d" % i for i in range(20 * big)))}
    if kind == "load_tpm":
        n = r.randrange(2, 4)
        return (_arr(r, 6 * big, n, n), np.array(
            ["s%d" % i for i in range(n)]), _pdf(r, n),
            {"info": "legend", "n": [1, 2], "big": ["x" * 50] * 4 * big})
    if kind == "load_tpm_with_duration":
        n = r.randrange(2, 4)
        return (_arr(r, 6 * big, n, n), _arr(r, 6, n, 3), np.array(
            ["s%d" % i for i in range(n)]), _pdf(r, n), _arr(r, n, 3),
            {"info": "legend"})
    if kind == "load_sparse_tpm":
        from demod.utils.sparse import SparseTPM
        nt, ns = r.randrange(2, 4) * big, r.randrange(2, 4)
        t, i, j, v = [], [], [], []
        for a in range(nt):
            for b in range(ns):
                p = _pdf(r, ns)
                for c in range(ns):
                    t.append(a)
                    i.append(b)
                    j.append(c)
                    v.append(p[c])
        return (SparseTPM(np.array(t), np.array(i), np.array(j), np.array(v)),
                np.array(["st%d" % k for k in range(ns)]),
                np.array(["a", "bb", "c%d" % r.randrange(9)]), _pdf(r, ns),
                {"legend": r.randrange(99)})
    if kind in ("load_activity_probability_profiles",
                "load_daily_activity_starts", "load_activity_duration",
                "load_activity_probabilities"):
        return {"act%d" % k: _arr(r, r.randrange(1, 5) * 4 * big)
                for k in range(r.randrange(1, 4))}
    if kind == "load_bulbs_config":
        return _arr(r, 3, 5 * big)
    if kind == "load_installed_bulbs_stats":
        return (r.randrange(1, 99) / 4, r.randrange(1, 99) / 4)
    if kind in ("load_buildings_dict", "load_heating_system_dict"):
        return {"name": ["b%d" % k for k in range(3)],
                "u": _arr(r, 3 * big), "number": 3, "x": _arr(r, 3)}
    if kind == "load_thermostat_dict":
        return {"cdf": _arr(r, 4), "emitter_setpoints": 50.0,
                "deadband": {"space_heating": r.randrange(9), "dhw": 5}}
    if kind == "load_appliance_dict":
        n = r.randrange(2, 4)
        return {"name": np.array(["n%d" % k for k in range(n)]),
                "type": np.array(["t%d" % k for k in range(n)]),
                "power": _arr(r, n), "inactive": np.array([True, False] * n),
                "number": n, "pad": _arr(r, 60 * big)}
    if kind == "load_clearness_tpms":
        return (_arr(r, 4, 4 * big), _arr(r, 4),
                datetime.timedelta(seconds=r.choice([1, 1, 40]) *
                                   r.randrange(1, 9000),
                                   microseconds=r.randrange(5)))
    if kind == "load_temperatures_arma":
        return {"a": r.random(), "b": r.random()}
    if kind == "load_geographic_data":
        return {"country": "c%d" % r.randrange(9), "latitude": r.random() * 9,
                "longitude": r.random(), "meridian": 0,
                "use_daylight_saving_time": bool(r.randrange(2))}
    if kind == "load_fisher_lighting":
        return {"min": r.randrange(99), "max": r.randrange(99)}
    if kind == "load_crest_lighting":
        return {"mean": r.random(), "cdf": _arr(r, 6 * big),
                "k": [1, 2, r.randrange(9)]}
    if kind == "load_bulbs":
        return _arr(r, 4 * big), _arr(r, 4 * big)
    if kind == "load_population_subgroups":
        n = r.randrange(1, 5)
        return ([{"n_residents": k + 1, "weekday": [6, 7]} for k in range(n)],
                _pdf(r, n), r.randrange(10 ** 6))
    if kind == "load_real_profiles_dict":
        return {"t%d" % a: {"p_%d.csv" % b: _arr(r, 30 * big)
                            for b in range(2)} for a in range(2)}
    if kind == "load_historical_climate_data":
        n = 24 * big
        t0 = np.datetime64("2014-01-01T00:00:00")
        return {"datetime": t0 + np.arange(n) * np.timedelta64(3600, "s"),
                "outside_temperature": _arr(r, n), "irradiance": _arr(r, n)}
    raise KeyError(kind)


# how the parsed content reads back through the public method
def public(kind, c):
    if kind in ("load_tpm",):
        return c[:3]
    if kind == "load_tpm_with_duration":
        return c[:5]
    if kind == "load_sparse_tpm":
        return c[:4]
    return c


def norm(x):
    """A value with containers and number types flattened to plain Python."""
    if type(x).__name__ == "SparseTPM":
        o = sorted(zip(*(np.asarray(a).tolist() for a in (
            x.times, x.inds_from, x.inds_to, x.values))))
        return ["sparse", [list(t) for t in o], int(x.n_states),
                int(x.n_times)]
    if isinstance(x, dict):
        return {str(k): norm(v) for k, v in x.items()}
    if isinstance(x, np.ndarray):
        if x.dtype.kind == "M":
            return x.astype("datetime64[us]").astype(str).tolist()
        return norm(x.tolist())
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    if isinstance(x, np.generic):
        return norm(x.item())
    if isinstance(x, datetime.timedelta):
        return ["td", x.days, x.seconds, x.microseconds]
    if hasattr(x, "to_numpy"):
        return norm(x.to_numpy())
    return x


def same(a, b):
    """Equality of normalised values; NaN equals NaN."""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (dict, list)) or isinstance(b, (dict, list)):
        return False
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b
    return a == b or (a != a and b != b)


def describe_difference(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return "%s.%s is only in one" % (path, k)
            if not same(a[k], b[k]):
                return describe_difference(a[k], b[k], path + "." + str(k))
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return "%s has %d elements, expected %d" % (path, len(b), len(a))
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return describe_difference(x, y, "%s[%d]" % (path, i))
    return "%s: expected %.80r, got %.80r" % (path, a, b)


def make_loader_class(name, state, crest=False):
    """``state``: {"salt", "parsed": {key: count}, "raw": bool, "scale"}."""
    from demod.datasets import base_loader as bl
    from demod.datasets.tou_loader import LoaderTOU

    if crest:
        from demod.datasets.CREST.loader import Crest
        bases = (Crest,)
        name = Crest.DATASET_NAME
    else:
        bases = (bl.ApplianceLoader, LoaderTOU, bl.ClimateLoader,
                 bl.LightingLoader, bl.PopulationLoader, bl.HeatingLoader)

    class Synth(*bases):
        DATASET_NAME = name
        step_size = datetime.timedelta(hours=1)
        refresh_time = datetime.time(4, 0, 0)

        def _made(self, kind, *key):
            full = (kind,) + ident(kind, state["salt"], self.version,
                                   self.activity_type) + key
            if not state["raw"]:
                raise RawMissing("raw data of %s is absent" % name)
            if state.get("fail", 0) > 0:
                state["fail"] -= 1
                state["ctx"].fault("parse_failure")
                raise ParseFailure("simulated failure while parsing")
            hook = state.get("on_parse")
            if hook:
                hook()
            state["parsed"][full] = state["parsed"].get(full, 0) + 1
            return content(kind, state["scale"], *full[1:])

        def _parse_appliance_ownership_dict(self, subgroup):
            return self._made("load_appliance_ownership_dict",
                              canon(strip_time(subgroup)))

        def _parse_yearly_target_switchons(self, subgroup):
            return self._made("load_yearly_target_switchons",
                              canon(strip_time(subgroup)))

        def _parse_yearly_target_consumption(self, subgroup):
            return self._made("load_yearly_target_consumption",
                              canon(strip_time(subgroup)))

        def _parse_yearly_target_duration(self, subgroup):
            return self._made("load_yearly_target_duration",
                              canon(strip_time(subgroup)))

        def _parse_tpm(self, subgroup):
            made = self._made("load_tpm", canon(subgroup))
            return made[:3] if crest else made

        def _parse_tpm_with_duration(self, subgroup):
            return self._made("load_tpm_with_duration", canon(subgroup))

        def _parse_sparse_tpm(self, subgroup):
            return self._made("load_sparse_tpm", canon(subgroup))

        def _parse_activity_profiles(self, subgroup):
            return self._made("load_activity_probability_profiles",
                              canon(subgroup))

        def _parse_daily_activity_starts(self, subgroup):
            return self._made("load_daily_activity_starts", canon(subgroup))

        def _parse_activity_duration(self, subgroup):
            return self._made("load_activity_duration", canon(subgroup))

        def _parse_activity_probabilities(self, subgroup):
            return self._made("load_activity_probabilities", canon(subgroup))

        def _parse_bulbs_config(self, subgroup):
            return self._made("load_bulbs_config", canon(subgroup))

        def _parse_installed_bulbs_stats(self, subgroup):
            return self._made("load_installed_bulbs_stats", canon(subgroup))

        def _parse_buildings_dict(self, subgroup):
            return self._made("load_buildings_dict", canon(subgroup))

        def _parse_heating_system_dict(self, subgroup):
            return self._made("load_heating_system_dict", canon(subgroup))

        def _parse_thermostat_dict(self, subgroup):
            return self._made("load_thermostat_dict", canon(subgroup))

        def _parse_appliance_dict(self):
            return self._made("load_appliance_dict")

        def _parse_clearness_tpms(self):
            return self._made("load_clearness_tpms")

        def _parse_temperatures_arma(self):
            return self._made("load_temperatures_arma")

        def _parse_geographic_data(self):
            return self._made("load_geographic_data")

        def _parse_fisher_lighting(self):
            return self._made("load_fisher_lighting")

        def _parse_crest_lighting(self):
            return self._made("load_crest_lighting")

        def _parse_bulbs(self):
            return self._made("load_bulbs")

        def _parse_population_subgroups(self, population_type):
            return self._made("load_population_subgroups", population_type)

        def _parse_real_profiles_dict(self, profiles_type):
            return self._made("load_real_profiles_dict", profiles_type)

        def _parse_historical_climate_data(self):
            return self._made("load_historical_climate_data")

    return Synth


class RawMissing(Exception):
    pass


class ParseFailure(Exception):
    pass


# which part of a loader's identity its items depend on
PER_ACTIVITY = {
    "load_tpm", "load_tpm_with_duration", "load_sparse_tpm",
    "load_activity_probability_profiles", "load_daily_activity_starts",
    "load_activity_duration", "load_activity_probabilities",
}


def ident(kind, salt, version, activity):
    return (salt, version, activity if kind in PER_ACTIVITY else "-")


def key_of(kind, salt, version, activity, arg):
    """The identity of an item, and what parsing it would give."""
    if kind in SUBGROUP_METHODS_NOTIME:
        return (canon(strip_time(arg)),)
    if kind in SUBGROUP_METHODS:
        return (canon(arg),)
    if kind in ("load_population_subgroups", "load_real_profiles_dict"):
        return (arg,)
    return ()


def call(loader, kind, arg):
    if kind in PLAIN_METHODS:
        return getattr(loader, kind)()
    if kind == "load_historical_climate_data":
        return loader.load_historical_climate_data(
            datetime.datetime(2014, 1, 1))
    return getattr(loader, kind)(arg)


def expected(kind, scale, salt, version, activity, arg):
    return norm(public(kind, content(
        kind, scale, *ident(kind, salt, version, activity),
        *key_of(kind, salt, version, activity, arg))))


def random_arg(rng, kind):
    if kind == "load_population_subgroups":
        return rng.choice(["household_types", "resident_number"])
    if kind == "load_real_profiles_dict":
        return rng.choice(["full", "switchedON"])
    if kind in SUBGROUP_METHODS or kind in SUBGROUP_METHODS_NOTIME:
        return dict(rng.choice(SUBGROUPS))
    return None
