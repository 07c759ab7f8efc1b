"""Every simulator of the library, ready to be built and stepped.

A *subject* is described by JSON: {"kind", "n", "start", "step", "salt",
"real", ...}.  `build` makes it, `inputs(k)` are the arguments of its k-th
step (they depend on the salt and k only), `view` is everything a user can ask
it for.
"""
import datetime

import numpy as np

from . import fakedata as F
from .simenv import TD, random_start, rs, snap, start_of

SUBS = [(1, 1), (2, 2), (2, 3), (3, 3), (4, 3), (3, 4), (4, 4), (5, 4)]


class Subject:
    kind = None
    aware = False          # has a clock
    grid = 60              # seconds on which start times are meaningful
    step = None            # fixed step in seconds, or None if it can be chosen
    zones = False
    real_ok = True         # can use the committed data
    getters = None         # names of the getters, None for all without args
    skip = ()
    wide = True           # real data exist for every year
    multi = False

    def __init__(self, p):
        self.p = p
        self.given = []

    def keep(self, *objects):
        """Remembers what objects given to the library looked like."""
        for x in objects:
            self.given.append((x, snap(x)))
        return objects if len(objects) > 1 else objects[0]

    # -- to override
    @classmethod
    def params(cls, rng):
        p = {"kind": cls.kind, "n": rng.choice([1, 2, 3, 5, 8]),
             "salt": rng.randrange(10 ** 6),
             "real": cls.real_ok and rng.random() < .35}
        if cls.aware:
            p["start"] = random_start(rng, cls.grid, cls.zones,
                                      wide=not p["real"] or cls.wide)
            if cls.step is None:
                p["step"] = rng.choice([60, 60, 600, 1800])
        cls.more(p, rng)
        return p

    @classmethod
    def more(cls, p, rng):
        pass

    def build(self, logger=None):
        raise NotImplementedError

    def inputs(self, sim, k):
        return (), {}

    # -- common
    def start(self):
        return start_of(self.p["start"])

    def rs(self, *key):
        return rs(self.p["salt"], *key)

    def kw(self, logger):
        kw = {}
        if self.aware:
            kw["start_datetime"] = self.start()
            if self.step is None:
                kw["step_size"] = TD(seconds=self.p["step"])
        if logger is not None:
            kw["logger"] = logger
        return kw

    def names(self, sim):
        out = []
        for n in sorted(set(dir(sim))):
            if n.startswith("get_") and n not in self.skip and n not in (
                    "get_n_doing_state", "get_n_doing_activity",
                    "get_performing_activity", "get_mask_subgroup",
                    "get_switchon_probs"):
                out.append(n)
        return out

    def view(self, sim, names=None):
        """Everything observable: {name: value}."""
        out = {}
        for n in names if names is not None else self.names(sim):
            try:
                out[n] = getattr(sim, n)()
            except NotImplementedError:
                pass
        out.update(self.extra(sim))
        return out

    def extra(self, sim):
        return {}

    def do_step(self, sim, k):
        a, kw = self.inputs(sim, k)
        kept = snap((a, kw))
        sim.step(*a, **kw)
        self.last_inputs = (a, kw), kept


def occupancy(r, n, top=4):
    return r.randint(0, top + 1, size=n)


# ----------------------------------------------------------------- activities

class Markov(Subject):
    kind = "markov"
    real_ok = False
    skip = ()

    @classmethod
    def more(cls, p, rng):
        p["mode"] = rng.choice(["perm", "zeros", "dense"])
        p["n_times"] = rng.choice([1, 2, 5, 144])
        p["n_lab"] = rng.choice([2, 3, 4, 4, 4, 7, 15])
        p["n_dur"] = rng.choice([2, 3, 12, 12, 40])

    def data(self):
        return F.FakeTOU(self.p["salt"], self.p["mode"],
                         n_times=self.p["n_times"], **self.sizes())

    def sizes(self):
        some = ["sleeping", "away", "active", "cooking"] + [
            "doing %d" % i for i in range(20)]
        return {"labels": some[:self.p.get("n_lab", 4)],
                "n_dur": self.p.get("n_dur", 12)}

    def build(self, logger=None):
        from demod.simulators.activity_simulators import MarkovChain1rstOrder
        tpm, lab, pdf = self.keep(*self.data().load_tpm({}))
        sim = MarkovChain1rstOrder(self.p["n"], len(lab), tpm, lab,
                                   **self.kw(logger))
        sim.initialize_starting_state(
            pdf, start_time_step=self.p.get("warm", 0))
        return sim

    def extra(self, sim):
        return {"current_states": np.array(sim.current_states),
                **{"doing " + str(x): sim.get_n_doing_activity(x)
                   for x in sim.state_labels}}


class SemiMarkov(Markov):
    kind = "semimarkov"

    @classmethod
    def more(cls, p, rng):
        Markov.more.__func__(cls, p, rng)
        p["previous"] = rng.random() < .4

    def data(self):
        return F.FakeTOU(self.p["salt"], self.p["mode"],
                         n_times=self.p["n_times"],
                         previous=self.p["previous"], **self.sizes())

    def build(self, logger=None):
        from demod.simulators.activity_simulators import SemiMarkovSimulator
        tpm, dur, lab, pdf, pdur = self.keep(
            *self.data().load_tpm_with_duration({}))
        sim = SemiMarkovSimulator(self.p["n"], len(lab), tpm, dur, lab,
                                  **self.kw(logger))
        sim.initialize_starting_state(
            pdf, pdur, start_time_step=self.p.get("warm", 0))
        return sim


class Individuals(Subject):
    kind = "individuals"
    aware = True
    grid = 600
    step = 600
    zones = True
    multi = True
    semi = False

    @classmethod
    def more(cls, p, rng):
        k = rng.choice([1, 2, 2, 3])
        p["subs"] = [list(rng.choice(SUBS[1:] if p["real"] else SUBS))
                     for _ in range(k)]
        p["counts"] = [rng.choice([1, 1, 2, 3]) for _ in range(k)]
        p["mode"] = rng.choice(["perm", "zeros", "dense"])
        p["days"] = rng.choice(["", "use_week_ends_days", "use_week_sat_sun",
                                "use_7days"]) if not p["real"] else ""
        p["quarters"] = not p["real"] and rng.random() < .4
        p["relabel"] = rng.random() < .3

    def subgroups(self):
        return [{"n_residents": a, "household_type": b}
                for a, b in self.p["subs"]]

    def data(self):
        if self.p["real"]:
            from demod.datasets.GermanTOU.loader import GTOU
            return GTOU("DemodActivities_0")
        return F.FakeTOU(self.p["salt"], self.p["mode"],
                         relabel=self.p["relabel"])

    def build(self, logger=None):
        from demod.simulators.activity_simulators import (
            SubgroupsIndividualsActivitySimulator, SemiMarkovSimulator,
            MarkovChain1rstOrder)
        kw = self.kw(logger)
        if self.p["days"]:
            kw[self.p["days"]] = True
        if self.p["quarters"]:
            kw["use_quarters"] = True
        return SubgroupsIndividualsActivitySimulator(
            self.keep(self.subgroups()), self.keep(list(self.p["counts"])),
            data=self.data(), subsimulator=SemiMarkovSimulator if self.semi
            else MarkovChain1rstOrder, **kw)

    def extra(self, sim):
        return {"doing " + str(x): sim.get_n_doing_activity(x)
                for x in sim.activity_labels}


class IndividualsSemi(Individuals):
    kind = "individuals_semi"
    semi = True


class Sparse(Subject):
    kind = "sparse"
    aware = False
    grid = 600

    @classmethod
    def more(cls, p, rng):
        p["start"] = random_start(rng, 600, wide=True) \
            if rng.random() < .7 else None
        p["res"] = rng.choice([1, 1, 2, 2, 3, 3, 4, 6])
        p["mode"] = rng.choice(["perm", "zeros", "dense"])
        p["days"] = rng.choice(["ends", "ends", "7", "none"]) \
            if not p["real"] else "ends"
        p["quarters"] = not p["real"] and rng.random() < .4
        p["vary"] = rng.random() < .5

    def data(self):
        if self.p["real"]:
            from demod.datasets.GermanTOU.loader import GTOU
            return GTOU("Sparse9States")
        return F.FakeSparseTOU(self.p["salt"], self.p["mode"],
                               self.p["vary"])

    def subgroup(self, n):
        d = {"n_residents": n}
        if self.p["real"]:
            d["household_type"] = min(n, 2)
        return d

    def build(self, logger=None):
        from demod.simulators.sparse_simulators import (
            SparseTransitStatesSimulator)
        res = self.p["res"] if not self.p["real"] else min(2, self.p["res"])
        return SparseTransitStatesSimulator(
            self.p["n"], self.keep(self.subgroup(res)), data=self.data(),
            **self.skw(logger))

    def skw(self, logger):
        kw = {}
        if self.p["start"] is not None:
            kw["start_datetime"] = self.start()
            kw["use_7days"] = self.p["days"] == "7"
            kw["use_week_ends_days"] = self.p["days"] == "ends"
            kw["use_quarters"] = self.p["quarters"]
        if logger is not None:
            kw["logger"] = logger
        return kw

    def extra(self, sim):
        out = {"state " + a: sim.get_n_doing_state(a)
               for a in ("HWH", "HOH", "active")}
        if not self.multi:
            out["current_states"] = np.array(sim.current_states)
            out["states"] = sim.state_labels[sim.current_states]
            if self.p["start"] is not None:
                out["time"] = sim.time
        return out


class SparseMulti(Sparse):
    kind = "sparse_multi"
    multi = True

    def build(self, logger=None):
        from demod.simulators.sparse_simulators import (
            SubgroupsActivitySimulator)
        res = [1, 2] if self.p["real"] else [1, 2, 3]
        counts = [1 + self.rs("c", i).randint(3) for i in range(len(res))]
        return SubgroupsActivitySimulator(
            self.keep([self.subgroup(x) for x in res]), self.keep(counts),
            data=self.data(),
            **self.skw(logger))


class CrestOccupancy(Subject):
    kind = "crest_occupancy"

    @classmethod
    def more(cls, p, rng):
        p["res"] = rng.choice([1, 1, 2, 2, 3, 3, 5])
        p["day"] = rng.choice(["d", "e"])
        p["mode"] = rng.choice(["perm", "zeros", "dense"])

    def data(self):
        if self.p["real"]:
            from demod.datasets.CREST.loader import Crest
            return Crest()
        return F.FakeCrestTOU(self.p["salt"], self.p["mode"])

    def build(self, logger=None):
        from demod.simulators.crest_simulators import CrestOccupancySimulator
        return CrestOccupancySimulator(
            self.p["n"], self.p["res"], self.p["day"], data=self.data(),
            **self.kw(logger))

    def extra(self, sim):
        return {"current_states": np.array(sim.current_states)}


class Crest4(Subject):
    kind = "crest4"
    aware = True
    grid = 600
    step = 600
    zones = True
    multi = True

    @classmethod
    def more(cls, p, rng):
        p["mode"] = rng.choice(["perm", "zeros", "dense"])
        p["relabel"] = rng.random() < .3

    def data(self):
        if self.p["real"]:
            from demod.datasets.CREST.loader import Crest
            return Crest()
        return F.FakeCrestTOU(self.p["salt"], self.p["mode"],
                              relabel=self.p["relabel"])

    def build(self, logger=None):
        from demod.simulators.crest_simulators import Crest4StatesModel
        kw = self.kw(logger)
        return Crest4StatesModel(self.p["n"], data=self.data(), **kw)


# -------------------------------------------------------------------- weather

class CrestIrradiance(Subject):
    kind = "crest_irradiance"
    aware = True
    step = 60
    zones = True

    @classmethod
    def more(cls, p, rng):
        p["mode"] = rng.choice(["zeros", "dense"])

    def data(self):
        if self.p["real"]:
            from demod.datasets.CREST.loader import Crest
            return Crest()
        return F.FakeSky(self.p["salt"], self.p["mode"])

    def build(self, logger=None):
        from demod.simulators.weather_simulators import (
            CrestIrradianceSimulator)
        return CrestIrradianceSimulator(data=self.data(), **self.kw(logger))


class CrestClimate(CrestIrradiance):
    kind = "crest_climate"

    def build(self, logger=None):
        from demod.simulators.weather_simulators import CrestClimateSimulator
        return CrestClimateSimulator(data=self.data(), **self.kw(logger))


class RealClimate(Subject):
    kind = "real_climate"
    wide = False
    aware = True
    grid = 3600
    step = 3600
    zones = True

    @classmethod
    def more(cls, p, rng):
        p["ninja"] = rng.random() < .5
        p["start"] = random_start(rng, cls.grid, cls.zones,
                                  wide=not p["real"])

    def data(self):
        if self.p["real"]:
            if self.p["ninja"]:
                from demod.datasets.RenewablesNinja.loader import (
                    NinjaRenewablesClimate)
                return NinjaRenewablesClimate("DE")
            from demod.datasets.OpenPowerSystems.loader import (
                OpenPowerSystemClimate)
            return OpenPowerSystemClimate("germany")
        return F.FakeClimate(
            self.p["salt"], start=F.records_from(self.p["start"]["t"]),
            hours=24 * 430)

    def build(self, logger=None):
        from demod.simulators.weather_simulators import RealClimate
        return RealClimate(data=self.data(), **self.kw(logger))


class Interpolated(RealClimate):
    kind = "interpolated_climate"
    grid = 60
    step = None

    def build(self, logger=None):
        from demod.simulators.weather_simulators import (
            RealInterpolatedClimate)
        return RealInterpolatedClimate(data=self.data(), **self.kw(logger))


# ------------------------------------------------------------------- lighting

class Fisher(Subject):
    kind = "fisher"

    def data(self):
        if self.p["real"]:
            from demod.datasets.Germany.loader import GermanDataHerus
            return GermanDataHerus()
        return F.FakeLighting(self.p["salt"])

    def build(self, logger=None):
        from demod.simulators.lighting_simulators import (
            FisherLightingSimulator)
        return FisherLightingSimulator(
            self.p["n"], data=self.data(),
            initial_active_occupancy=self.keep(occupancy(
                self.rs("i"), self.p["n"])), initial_irradiance=20.0,
            **self.kw(logger))

    def inputs(self, sim, k):
        r = self.rs("in", k)
        return (), {"active_occupancy": occupancy(r, self.p["n"]),
                    "irradiance": float(r.choice([0, 20, 45, 59, 200]))}


class CrestLighting(Subject):
    kind = "crest_lighting"

    @classmethod
    def more(cls, p, rng):
        p["algo"] = rng.choice(["config", "randn"])

    def data(self):
        if self.p["real"]:
            from demod.datasets.CREST.loader import Crest
            return Crest()
        return F.FakeLighting(self.p["salt"])

    def build(self, logger=None):
        from demod.simulators.lighting_simulators import (
            CrestLightingSimulator)
        return CrestLightingSimulator(
            self.p["n"], data=self.data(), bulbs_sampling_algo=self.p["algo"],
            **self.kw(logger))

    def inputs(self, sim, k):
        r = self.rs("in", k)
        return (), {"active_occupancy": occupancy(r, self.p["n"]),
                    "irradiance": float(r.choice([0, 20, 45, 65, 200]))}


# ----------------------------------------------------------------- appliances

class OccupancyAppliances(Subject):
    kind = "occupancy_appliances"
    aware = True
    step = 60
    zones = True

    @classmethod
    def more(cls, p, rng):
        k = rng.choice([1, 2])
        p["res"] = [rng.choice([1, 2, 3]) for _ in range(k)]
        p["counts"] = [rng.choice([1, 2, 3]) for _ in range(k)]
        p["equip"] = rng.choice(["subgroup", "basic", "all"])
        p["profiles"] = "nothing" if p["real"] else rng.choice(
            ["nothing", "nothing", "uniform", "only_always_on",
             "only_switched_on"])
        # an early start keeps the warm-up short most of the time
        if rng.random() < .6:
            p["start"]["t"] = p["start"]["t"][:11] + "04:0%d:00" \
                % rng.randrange(10)

    def subgroups(self):
        return [{"n_residents": x} for x in self.p["res"]]

    def data(self):
        if self.p["real"]:
            from demod.datasets.CREST.loader import Crest
            return Crest()
        return F.FakeAppliances(self.p["salt"])

    def build(self, logger=None):
        from demod.simulators.appliance_simulators import (
            OccupancyApplianceSimulator)
        n = sum(self.p["counts"])
        return OccupancyApplianceSimulator(
            self.keep(self.subgroups()), self.keep(list(self.p["counts"])),
            data=self.data(),
            initial_active_occupancy=self.keep(
                occupancy(self.rs("i"), n, 1)),
            equipped_sampling_algo=self.p["equip"],
            real_profiles_algo=self.p["profiles"],
            **{**self.kw(logger), "step_size": TD(minutes=1)})

    def inputs(self, sim, k):
        r = self.rs("in", k // 10)
        return (), {"active_occupancy": np.minimum(
            occupancy(r, sum(self.p["counts"]), 3), self.p["res"][0])}


class ActivityAppliances(Subject):
    kind = "activity_appliances"
    aware = True
    zones = True
    prob = False

    @classmethod
    def more(cls, p, rng):
        p["profiles"] = "nothing" if p["real"] else rng.choice(
            ["nothing", "nothing", "uniform", "only_always_on",
             "only_switched_on"])
        p["equip"] = rng.choice(["basic", "all"])

    def data(self):
        if self.p["real"]:
            from demod.datasets.Germany.loader import GermanDataHerus
            return GermanDataHerus("vBottaccioli")
        rows = F.appliance_rows(self.p["salt"])
        for i, r in enumerate(rows):
            r["probabilistic"] = self.prob
            r["previous_appliance_type"] = "nan"
            r["previous_activity"] = "nan"
        return F.FakeAppliances(self.p["salt"], rows=rows)

    ACTS = ["cooking", "laundry", "self_washing", "watching_tv", "cleaning",
            "ironing", "dishwashing", "electronics", "active_occupancy"]

    def acts(self, k):
        r = self.rs("in", k // 3)
        return {a: (r.random_sample(self.p["n"]) < .4)
                * r.randint(1, 3, self.p["n"]) for a in self.ACTS}

    def build(self, logger=None):
        from demod.simulators import appliance_simulators as A
        cls = A.ProbabiliticActivityAppliancesSimulator if self.prob \
            else A.ActivityApplianceSimulator
        return cls(self.p["n"], self.keep(self.acts(0)), data=self.data(),
                   real_profiles_algo=self.p["profiles"],
                   equipped_sampling_algo=self.p["equip"],
                   **self.kw(logger))

    def inputs(self, sim, k):
        return (self.acts(k),), {}


class ProbabilisticAppliances(ActivityAppliances):
    kind = "probabilistic_appliances"
    prob = True
    real_ok = False


# -------------------------------------------------------------------- heating

class VariableThermostat(Subject):
    kind = "variable_thermostat"
    real_ok = False

    @classmethod
    def more(cls, p, rng):
        p["start"] = random_start(rng, 600, wide=True)
        p["pattern"] = rng.choice(["living lab", "random",
                                   "Hot and Cold Fluctuators",
                                   "On-Demand Sizzlers", "Toasty Cruisers"])

    def build(self, logger=None):
        from demod.simulators.heating_simulators import (
            VariableThermostatTemperatureSimulator)
        o = self.keep(*self.occ(0))
        kw = {"pattern_attribution_method": self.p["pattern"]}
        if logger is not None:
            kw["logger"] = logger
        sim = VariableThermostatTemperatureSimulator(
            self.p["n"], o[0], o[1], self.start(), **kw)
        return sim

    def occ(self, k):
        r = self.rs("in", k // 2)
        o = occupancy(r, self.p["n"], 2)
        return o, np.minimum(o, occupancy(r, self.p["n"], 2))

    def inputs(self, sim, k):
        return self.occ(k), {}

    def extra(self, sim):
        return {"time": sim.time}


class Heating(Subject):
    kind = "heating"

    @classmethod
    def more(cls, p, rng):
        p["algo"] = rng.choice(["heat_max_emmiters", "room_estimation"])
        p["step"] = rng.choice([60, 60, 30, 120])
        p["external"] = rng.random() < .6

    def data(self):
        if self.p["real"]:
            if self.p["salt"] % 2:
                from demod.datasets.CREST.loader import Crest
                return Crest()
            from demod.datasets.Germany.loader import GermanDataHerus
            return GermanDataHerus()
        return F.FakeHeating(self.p["salt"])

    def build(self, logger=None):
        from demod.simulators.heating_simulators import (
            FiveModulesHeatingSimulator)
        return FiveModulesHeatingSimulator(
            self.p["n"], 4.0, heatdemand_algo=self.p["algo"],
            data=self.data(), step_size=TD(seconds=self.p["step"]),
            **self.kw(logger))

    def inputs(self, sim, k):
        r, n = self.rs("in", k), self.p["n"]
        d = {"outside_temperature": float(r.uniform(-12, 25)),
             "irradiance": float(r.choice([0., 100., 600.])),
             "dhw_heating_demand": np.where(
                 r.random_sample(n) < .3, 60. * r.random_sample(n), 0.0),
             "occupancy_thermal_gains": 147. * r.randint(0, 4, n),
             "lighting_thermal_gains": 100. * r.random_sample(n),
             "appliances_thermal_gains": 500. * r.random_sample(n)}
        if self.p["external"]:
            m = r.random_sample(n) < .5
            use = r.random_sample(6) < .35
            if use[0]:
                d["external_dhw_outputs"] = np.where(m, 3000., np.nan)
            if use[1]:
                d["external_sh_outputs"] = np.where(m, 4000., np.nan)
            if use[2]:
                d["external_cylinder_temperature"] = np.where(m, 52., np.nan)
            if use[3]:
                d["external_target_temperature"] = 18. + r.randint(
                    0, 5, n).astype(float)
            elif use[4]:
                d["external_target_temperature"] = {
                    "space_heating": np.where(~m, 21., np.nan)}
            if use[5]:
                d["external_heat_outputs"] = np.where(m, 5000., np.nan) \
                    if k % 2 else {"dhw": np.where(m, 2500., np.nan)}
        return (), d

    def extra(self, sim):
        return {"interior": sim.get_temperatures()["interior"]}


class Load(Subject):
    kind = "load"
    wide = False
    aware = True
    step = 60
    real_ok = True

    @classmethod
    def more(cls, p, rng):
        p["heating"] = rng.random() < .8
        p["climate"] = rng.random() < .8
        if rng.random() < .7:
            p["start"]["t"] = p["start"]["t"][:11] + "04:00:00"

    def data(self):
        if self.p["real"]:
            from demod.datasets.Germany.loader import GermanDataHerus
            return GermanDataHerus()
        return F.FakeAll(
            self.p["salt"], start=F.records_from(self.p["start"]["t"]),
            hours=24 * 430)

    def build(self, logger=None):
        from demod.simulators.load_simulators import LoadSimulator
        return LoadSimulator(
            self.p["n"], data=self.data(), include_heating=self.p["heating"],
            include_climate=self.p["climate"], **self.kw2(logger))

    def kw2(self, logger):
        kw = {"start_datetime": self.start()}
        if logger is not None:
            kw["logger"] = logger
        return kw

    def inputs(self, sim, k):
        kw = {}
        if not self.p["climate"]:
            r = self.rs("in", k // 10)
            kw = {"external_outside_temperature": float(r.uniform(-5, 20)),
                  "external_irradiance": float(r.choice([0., 50., 400.]))}
        return (), kw

    def names(self, sim):
        n = Subject.names(self, sim)
        if not self.p["heating"]:
            n = [x for x in n if "heat" not in x and x != "get_temperatures"]
        return n


class Car(Subject):
    kind = "car"
    real_ok = False

    def build(self, logger=None):
        from demod.simulators.car_simulator import ElectricCarSimulator

        class Sim(ElectricCarSimulator):
            def read_cars(self, *a, **k):
                return {"type": np.array(["small", "big"]),
                        "proportion": np.array([.6, .4]),
                        "capacity kWh": np.array([40., 80.]),
                        "consumption kWh/100km": np.array([14., 22.]),
                        "max charge power kW": np.array([7.4, 11.])}

            def read_charging_station(self, *a, **k):
                return {"type": np.array(["plug", "box"]),
                        "proportion": np.array([.5, .5]),
                        "max charge power kW": np.array([2.3, 11.])}
        a, b, c = self.keep(*self.occ(0))
        return Sim(self.p["n"], a, b, c, {}, **self.kw(logger))

    def occ(self, k):
        r, n = self.rs("in", k // 3), self.p["n"]
        total = rs(self.p["salt"], "res").randint(1, 5, n)
        away = (r.random_sample(n) * (total + 1)).astype(int)
        hwh = (r.random_sample(n) * (away + 1)).astype(int)
        return total - away, away - hwh, hwh

    def inputs(self, sim, k):
        return self.occ(k), {}


KINDS = {c.kind: c for c in (
    Markov, SemiMarkov, Individuals, IndividualsSemi, Sparse, SparseMulti,
    CrestOccupancy, Crest4, CrestIrradiance, CrestClimate, RealClimate,
    Interpolated, Fisher, CrestLighting, OccupancyAppliances,
    ActivityAppliances, ProbabilisticAppliances, VariableThermostat, Heating,
    Load, Car)}


def make(p):
    return KINDS[p["kind"]](p)


def random_params(rng, kinds=None):
    kind = rng.choice(sorted(kinds or KINDS))
    return KINDS[kind].params(rng)
