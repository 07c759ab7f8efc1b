"""A reference model of the heating of households, and its data.

The types of building and heating system of a household are not observed:
every pair of types with a positive probability is a hypothesis, and a
simulation is right as long as each household has a hypothesis left.
"""
import numpy as np

from .simenv import rs

FUELS = ["Mainsgas", "Electricity"]


def pdf(r, n):
    p = r.random_sample(n) + .05
    if n > 1 and r.random_sample() < .4:
        p[r.randint(n)] = 0
    return p / p.sum()


class Data:
    """Buildings, heating systems and thermostats, as a dataset has them."""

    def __init__(self, salt, combi=None):
        r = rs(salt, "heating")
        nb, ns = r.randint(1, 4), r.randint(1, 4)
        u = lambda n, a, b: np.round(a + (b - a) * r.random_sample(n), 3)
        self.buildings = {
            "equipped_prob": pdf(r, nb), "number": nb,
            "name": np.array(["b%d" % i for i in range(nb)]),
            "out_build_transfer_coef": u(nb, 60, 400),
            "build_int_transfer_coef": u(nb, 300, 1600),
            "ventilation_transfer_coef": u(nb, 10, 90),
            "ext_capacitance": u(nb, 3e6, 2e7),
            "int_capacitance": u(nb, 2e6, 2e7),
            "irradiance_multiplier": u(nb, .5, 4),
            "floor_area": u(nb, 30, 200), "height": u(nb, 2, 3),
            "emitters_target_temperature": u(nb, 40, 60),
            "emitters_transfer_coef": u(nb, 50, 300),
            "emitters_capacitance": u(nb, 3e4, 2e5)}
        cap = u(ns, 3000, 25000)
        self.systems = {
            "equipped_prob": pdf(r, ns), "number": ns,
            "name": np.array(["s%d" % i for i in range(ns)]),
            "is_combi": r.random_sample(ns) < .5,
            "fuel_type": r.choice(FUELS, size=ns),
            "fuel_flow_rate": u(ns, 1, 20),
            "flow_rate_to_W": u(ns, 9000, 30000),
            "heat_output_sh": cap.copy(),
            "heat_output_dhw": cap.copy() if r.random_sample() < .5 else
            u(ns, 2000, 25000),
            "standby_power": u(ns, 0, 12), "pump_power": u(ns, 15, 130),
            "cyl_volume": u(ns, 2, 250), "cyl_loss": u(ns, .2, 4)}
        if combi is not None:
            self.systems["is_combi"][:] = combi
        if r.random_sample() < .25:
            # heats only the rooms, or only the water
            k = r.choice(["heat_output_sh", "heat_output_dhw"])
            self.systems[k][r.randint(ns)] = 0.0
        nt, nw = r.randint(1, 4), r.randint(1, 3)
        self.home, self.water = pdf(r, nt), pdf(r, nw)
        self.thermostat = {
            "home_temperatures_cdf": np.cumsum(self.home),
            "home_temperatures_values": np.round(np.linspace(17, 23.5, nt), 2),
            "water_temperatures_cdf": np.cumsum(self.water),
            "water_temperatures_values": np.linspace(48, 61, nw),
            "emitter_setpoints": float(r.choice([45, 50, 55])),
            "deadband": {"space_heating": float(r.choice([.5, 1, 2])),
                         "hot_water": float(r.choice([3, 5])),
                         "emitter": float(r.choice([4, 5, 6.5]))}}

    def load_buildings_dict(self, *a, **kw):
        return copy(self.buildings)

    def load_heating_system_dict(self, *a, **kw):
        return copy(self.systems)

    def load_thermostat_dict(self, *a, **kw):
        out = copy(self.thermostat)
        out["deadband"] = dict(self.thermostat["deadband"])
        return out


def copy(d):
    return {k: v.copy() if isinstance(v, np.ndarray) else v
            for k, v in d.items()}


class Types:
    """The hypotheses on the types, as columns against the households."""

    def __init__(self, data, n):
        pairs = [(b, s) for b in range(data.buildings["number"])
                 for s in range(data.systems["number"])
                 if data.buildings["equipped_prob"][b] > 0
                 and data.systems["equipped_prob"][s] > 0]
        b = np.array([p[0] for p in pairs])
        s = np.array([p[1] for p in pairs])
        self.alive = np.ones((len(pairs), n), dtype=bool)
        self.b, self.s = b, s
        for k, v in data.buildings.items():
            if isinstance(v, np.ndarray):
                setattr(self, "b_" + k, v[b][:, None])
        for k, v in data.systems.items():
            if isinstance(v, np.ndarray):
                setattr(self, "s_" + k, v[s][:, None])
        # the components which an external heating system replaces
        self.loss = self.s_cyl_loss
        self.C_cyl = self.s_cyl_volume * 4200.0
        self.combi = self.s_is_combi

    def match(self, want, got, tol=1e-9):
        """Drops the hypotheses against `got`; whether each household still
        has one."""
        want, got = np.broadcast_arrays(np.asarray(want, dtype=float),
                                        np.asarray(got, dtype=float)[None])
        want = np.broadcast_to(want, self.alive.shape)
        self.alive &= np.isclose(want, got, rtol=tol, atol=tol) | (
            np.isnan(want) & np.isnan(got))
        return self.alive.any(axis=0)

    def show(self, want, h):
        w = np.broadcast_to(np.asarray(want, dtype=float), self.alive.shape)
        return sorted(set(np.round(w[:, h], 6).tolist()))


def expect(ctx, kind, types, want, got, what, tol=1e-9):
    """A value of the households is the one of their types."""
    got = np.asarray(got)
    ctx.check(got.shape == (types.alive.shape[1],), kind, "%s has the shape "
              "%s for %d households" % (what, got.shape,
                                        types.alive.shape[1]))
    ok = types.match(want, got, tol)
    if not ok.all():
        h = int(np.where(~ok)[0][0])
        ctx.fail(kind, "%s of household %d is %s instead of %s" % (
            what, h, got[h], types.show(want, h)))


# ------------------------------------------------------------------ the physics

def temperatures(t, dt, T, outside, sun, dhw, gains, heat):
    """The temperatures after a step, from those before it."""
    b, i, e, c = (T[k] for k in ("building", "interior", "emitter",
                                 "cylinder"))
    to_b = t.b_build_int_transfer_coef * (i - b)
    to_e = t.b_emitters_transfer_coef * (i - e)
    to_c = t.loss * (i - c)
    air = t.b_ventilation_transfer_coef * (outside - i)
    wall = t.b_out_build_transfer_coef * (outside - b)
    return {
        "building": b + dt / t.b_ext_capacitance * (wall + to_b),
        "interior": i + dt / t.b_int_capacitance * (
            air - to_b - to_e - to_c + sun * t.b_irradiance_multiplier
            + gains),
        "emitter": e + dt / t.b_emitters_capacitance * (
            to_e + heat["space_heating"]),
        "cylinder": c + dt / t.C_cyl * (
            to_c + dhw * (T["cold_water"] - c) + heat["dhw"])}


def demand(t, dt, T, target, deadband, dhw, outside, algo):
    c, i, e = T["cylinder"], T["interior"], T["emitter"]
    water = t.C_cyl / dt * (target["dhw"] + deadband["hot_water"] - c) + \
        dhw * (c - T["cold_water"]) + t.loss * (c - i)
    if algo == "heat_max_emmiters" or outside is None:
        space = t.b_emitters_capacitance / dt * (
            target["emitter"] + deadband["emitter"] - e) + \
            t.b_emitters_transfer_coef * (e - i)
    else:
        series = 1 / (1 / t.b_build_int_transfer_coef
                      + 1 / t.b_out_build_transfer_coef)
        space = t.b_int_capacitance / dt * (
            target["space_heating"] + deadband["space_heating"] - i) - \
            t.b_emitters_transfer_coef * (e - i) + (
                t.b_ventilation_transfer_coef + series) * (i - outside)
    return {"dhw": water, "space_heating": space}


def hysteresis(on, T, target, band):
    """A thermostat switches on below and off above its band."""
    return np.where(on, T < target + band, T <= target - band)


PARTS = [("hot_water", "cylinder", "dhw"),
         ("space_heating", "interior", "space_heating"),
         ("emitter", "emitter", "emitter")]


def thermostats(on, T, target, deadband):
    return {k: hysteresis(on[k], T[part], target[aim], deadband[k])
            for k, part, aim in PARTS}


def controls(combi, dhw, states, external=None):
    by_demand = combi if external is None else combi | external
    water = np.where(by_demand, np.asarray(dhw) > 0, states["hot_water"])
    space = states["space_heating"] & states["emitter"]
    return {"heat_water_on": water, "space_heating_on": space,
            "heater_on": water | space}


def outputs(t, c, want):
    water = np.where(c["heat_water_on"] & c["heater_on"], np.clip(
        want["dhw"], 0, t.s_heat_output_dhw), 0.0)
    left = np.maximum(0.0, t.s_heat_output_sh - water)
    space = np.where(c["space_heating_on"] & c["heater_on"], np.clip(
        want["space_heating"], 0, left), 0.0)
    return {"dhw": water, "space_heating": space, "total": water + space}


def consumption(t, c, out):
    """The flow of gas in m3/s, the electric power and the energy."""
    used = sum(np.where(m > 0, out[k] / np.where(m > 0, m, 1), 0)
               for k, m in (("dhw", t.s_heat_output_dhw),
                            ("space_heating", t.s_heat_output_sh)))
    used = np.where(c["heater_on"], used, 0.0)
    gas = (t.s_fuel_type == "Mainsgas")
    pump = np.where(c["space_heating_on"], t.s_pump_power, t.s_standby_power)
    flow = np.where(gas, t.s_fuel_flow_rate / 3600 * used, 0.0)
    elec = np.where(gas, 0.0, t.s_fuel_flow_rate * 1000 * used)
    return {"Mainsgas": flow, "Electricity": elec, "pump": pump,
            "power": pump + elec,
            "energy": pump + elec + np.where(
                gas, used * t.s_flow_rate_to_W, 0.0)}
