"""The simulated world: JSON specifications of population synths, their
generator, their construction through popsynth's public API, and the simulated
samplers, selectors and distributions whose callbacks are fault points and
probes."""
import copy
import inspect
import math

import numpy as np

import popsynth
from popsynth.auxiliary_sampler import AuxiliaryParameter, AuxiliarySampler, DerivedLumAuxSampler
from popsynth.distribution import DistributionParameter, LuminosityDistribution
from popsynth.distributions.spherical_distribution import SphericalDistribution
from popsynth.selection_probability.selection_probability import SelectionParameter, SelectionProbability
from popsynth.selection_probability.spatial_selection import SpatialSelection
from popsynth.utils.meta import Parameter
from popsynth.utils.registry import auxiliary_parameter_registry, distribution_registry, selection_registry

# ------------------------------------------------------------------- probes

#: called with (point, object) at every callback of a simulated part
HOOKS = []


def fire(point, obj):
    for h in list(HOOKS):
        h(point, obj)


# --------------------------------------------------------- simulated parts


class SimSpatial(SphericalDistribution):
    """A density (1 + k cos(r))^2 on a sphere whose callbacks are probes."""

    _distribution_name = "SimSpatial"

    Lambda = DistributionParameter(default=1, vmin=0, is_normalization=True)
    k = DistributionParameter(default=0.3)
    step = DistributionParameter(default=0.0, vmin=0)

    def __init__(self, seed: int = 1234, name: str = "sim_sphere", form: str = None):
        super(SimSpatial, self).__init__(seed=seed, name=name, form=form if form is not None else "sim")

    def dNdV(self, r):
        fire("dNdV", self)
        return self.Lambda * (1 + self.k * np.cos(r)) ** 2

    def differential_volume(self, r):
        fire("dV", self)
        return 4 * np.pi * r * r

    def time_adjustment(self, r):
        fire("time", self)
        return 1.0

    def transform(self, L, r):
        fire("transform", self)
        return L / (1.0 + r * r)

    def draw_distance(self, size, *args, **kwargs):
        super(SimSpatial, self).draw_distance(size, *args, **kwargs)
        if self.step:
            # a catalogue of shells: objects share their distances
            self._distances = np.minimum(self.step * np.ceil(self._distances / self.step), self.r_max)

    def draw_sky_positions(self, size):
        fire("sky", self)
        super(SimSpatial, self).draw_sky_positions(size)


class SimLum(LuminosityDistribution):
    """Log-logistic luminosities."""

    _distribution_name = "SimLum"

    Lc = DistributionParameter(default=2.0, vmin=0)
    s = DistributionParameter(default=2.0, vmin=0.1)
    # the density it declares may be tilted, as for a sample that is biased
    tilt = DistributionParameter(default=0.0)

    def __init__(self, seed: int = 1234, name: str = "sim_lum"):
        super(SimLum, self).__init__(seed=seed, name=name, form="simlum")

    def phi(self, L):
        fire("phi", self)
        x = (L / self.Lc) ** self.s
        return self.s / L * x / (1 + x) ** 2 * L ** self.tilt

    def draw_luminosity(self, size=1):
        fire("draw_luminosity", self)
        u = np.random.uniform(1e-9, 1 - 1e-9, size=size)
        return self.Lc * (u / (1 - u)) ** (1.0 / self.s)


def _squash(x):
    return np.tanh(np.asarray(x, dtype=float) / 10.0)


class _SimNodeMixin(object):
    def _center(self, size):
        loc = np.full(size, float(self.mu))
        for name, s in self.secondary_samplers.items():
            loc = loc + 0.5 * _squash(s.true_values) + 0.25 * _squash(s.obs_values)
        return loc

    def true_sampler(self, size):
        fire("true", self)
        loc = self._center(size)
        if self.uses_distance:
            loc = loc + np.log10(1.0 + np.asarray(self._distance))
        if self.uses_luminosity:
            loc = loc + 0.2 * np.log10(np.asarray(self._luminosity))
        if self.uses_sky_position:
            loc = loc + 0.1 * np.sin(np.asarray(self._theta)) + 0.01 * np.asarray(self._phi)
        self._true_values = loc + self.tau * np.random.normal(size=size)

    def observation_sampler(self, size):
        fire("obs", self)
        self._obs_values = self._true_values + self.sigma * np.random.normal(size=size)


class SimNode(_SimNodeMixin, AuxiliarySampler):
    _auxiliary_sampler_name = "SimNode"
    mu = AuxiliaryParameter(default=1.0)
    tau = AuxiliaryParameter(default=1.0, vmin=0)
    sigma = AuxiliaryParameter(default=0.5, vmin=0)

    def __init__(self, name: str, observed: bool = True):
        super(SimNode, self).__init__(name=name, observed=observed)


class SimDistNode(_SimNodeMixin, AuxiliarySampler):
    _auxiliary_sampler_name = "SimDistNode"
    mu = AuxiliaryParameter(default=1.0)
    tau = AuxiliaryParameter(default=1.0, vmin=0)
    sigma = AuxiliaryParameter(default=0.5, vmin=0)

    def __init__(self, name: str, observed: bool = True):
        super(SimDistNode, self).__init__(name=name, observed=observed, uses_distance=True)


class SimLumNode(_SimNodeMixin, AuxiliarySampler):
    _auxiliary_sampler_name = "SimLumNode"
    mu = AuxiliaryParameter(default=1.0)
    tau = AuxiliaryParameter(default=1.0, vmin=0)
    sigma = AuxiliaryParameter(default=0.5, vmin=0)

    def __init__(self, name: str, observed: bool = True):
        super(SimLumNode, self).__init__(name=name, observed=observed, uses_luminosity=True)


class SimSkyNode(_SimNodeMixin, AuxiliarySampler):
    _auxiliary_sampler_name = "SimSkyNode"
    mu = AuxiliaryParameter(default=1.0)
    tau = AuxiliaryParameter(default=1.0, vmin=0)
    sigma = AuxiliaryParameter(default=0.5, vmin=0)

    def __init__(self, name: str, observed: bool = True):
        super(SimSkyNode, self).__init__(name=name, observed=observed, uses_sky_position=True)


class SimAllNode(_SimNodeMixin, AuxiliarySampler):
    _auxiliary_sampler_name = "SimAllNode"
    mu = AuxiliaryParameter(default=1.0)
    tau = AuxiliaryParameter(default=1.0, vmin=0)
    sigma = AuxiliaryParameter(default=0.5, vmin=0)

    def __init__(self, name: str, observed: bool = True):
        super(SimAllNode, self).__init__(
            name=name, observed=observed, uses_distance=True, uses_luminosity=True, uses_sky_position=True)


class _SimDerivedMixin(object):
    def true_sampler(self, size):
        fire("true", self)
        loc = np.full(size, float(self.mu))
        for name, s in self.secondary_samplers.items():
            loc = loc + 0.5 * _squash(s.true_values)
        if self.uses_distance:
            loc = loc + 0.1 * np.log10(1.0 + np.asarray(self._distance))
        self._true_values = loc + self.tau * np.random.normal(size=size)

    def compute_luminosity(self):
        fire("compute_luminosity", self)
        out = np.power(10.0, 0.3 * np.asarray(self._true_values))
        for name, s in self.secondary_samplers.items():
            out = out * (1.5 + _squash(s.true_values))
        return out


class SimDerived(_SimDerivedMixin, DerivedLumAuxSampler):
    _auxiliary_sampler_name = "SimDerived"
    mu = AuxiliaryParameter(default=1.0)
    tau = AuxiliaryParameter(default=1.0, vmin=0)

    def __init__(self, name: str = "dl"):
        super(SimDerived, self).__init__(name=name)


class SimDerivedDist(_SimDerivedMixin, DerivedLumAuxSampler):
    _auxiliary_sampler_name = "SimDerivedDist"
    mu = AuxiliaryParameter(default=1.0)
    tau = AuxiliaryParameter(default=1.0, vmin=0)

    def __init__(self, name: str = "dl"):
        super(SimDerivedDist, self).__init__(name=name, uses_distance=True)


class SimSelection(SelectionProbability):
    """Selects values whose fractional part of k*log(1+|x|) is at least cut."""

    _selection_name = "SimSelection"
    k = SelectionParameter(default=3.0)
    cut = SelectionParameter(default=0.3, vmin=0, vmax=1)

    def __init__(self, name="sim selection", use_obs_value=False, use_distance=False, use_luminosity=False, use_flux=False):
        super(SimSelection, self).__init__(
            name=name, use_obs_value=use_obs_value, use_distance=use_distance,
            use_luminosity=use_luminosity, use_flux=use_flux)

    @staticmethod
    def accept(values, k, cut):
        x = k * np.log1p(np.abs(np.asarray(values, dtype=float)) * 1e6)
        return (x - np.floor(x)) >= cut

    def draw(self, size):
        fire("select", self)
        if self._use_distance:
            values = self._distance
        if self._use_obs_value:
            values = self._observed_value
        if self._use_luminosity:
            values = self._luminosity
        if self._use_flux:
            values = self._observed_flux
        self._selection = self.accept(values, self.k, self.cut)


class SimSpatialSelection(SpatialSelection):
    """Selects a band of polar angle."""

    _selection_name = "SimSpatialSelection"
    lo = SelectionParameter(default=0.5)
    hi = SelectionParameter(default=2.5)

    def __init__(self, name="sim spatial"):
        super(SimSpatialSelection, self).__init__(name=name)

    def draw(self, size):
        fire("select", self)
        t = self._spatial_distribution.theta
        self._selection = (t >= self.lo) & (t <= self.hi)


SIM_CLASSES = (SimSpatial, SimLum, SimNode, SimDistNode, SimLumNode, SimSkyNode, SimAllNode, SimDerived,
               SimDerivedDist, SimSelection, SimSpatialSelection)

# ------------------------------------------------------------ construction

COSMO = ("SFRDistribution", "ZPowerCosmoDistribution", "UniformCosmoDistribution")
FLAGS = {"obs": "use_obs_value", "dist": "use_distance", "lum": "use_luminosity", "flux": "use_flux"}


def registered(registry, name):
    """The class registered under a name."""
    for k, v in registry.items():
        if k == name:
            return v
    raise KeyError(name)


def class_defaults(cls):
    out = {}
    for c in reversed(cls.mro()):
        for k, v in list(vars(c).items()):
            if isinstance(v, Parameter):
                if v.default is not None:
                    out[k] = float(v.default)
                else:
                    out.pop(k, None)
    return out


def build_distribution(d):
    cls = registered(distribution_registry, d["type"])
    kw = {}
    if "is_rate" in d and d["type"] in COSMO:
        kw["is_rate"] = d["is_rate"]
    if d.get("name") is not None:
        kw["name"] = d["name"]
    out = cls(seed=d.get("seed", 1234), **kw)
    for k, v in d["params"].items():
        setattr(out, k, v)
    return out


def build_selector(s):
    cls = registered(selection_registry, s["type"])
    kw = {}
    if s.get("use"):
        kw[FLAGS[s["use"]]] = True
    out = cls(**kw)
    for k, v in s["params"].items():
        setattr(out, k, v)
    return out


def build_sampler(name, a):
    cls = registered(auxiliary_parameter_registry, a["type"])
    if a["type"] == "ViewingAngleSampler":
        out = cls()
    elif a["type"].startswith("SimDerived"):
        out = cls(name=name)
    else:
        out = cls(name=name, observed=a["observed"])
    for k, v in a["params"].items():
        setattr(out, k, v)
    return out


class World(object):
    """A synth and handles on everything attached to it."""

    def __init__(self):
        self.synth = None
        self.spatial = None
        self.lum = None
        self.nodes = {}
        self.selectors = {}   # "flux", "dist", "spat", "aux:<name>"

    def objects(self):
        """(label, object) of everything that has parameters."""
        out = []
        if self.spatial is not None:
            out.append(("spatial", self.spatial))
        if self.lum is not None:
            out.append(("lum", self.lum))
        for k, v in self.nodes.items():
            out.append(("node:" + k, v))
        for k, v in self.selectors.items():
            out.append(("sel:" + k, v))
        return out


BUILTIN = {
    "ConstantSphericalDistribution": "HomogeneousSpherical",
    "ZPowerSphericalDistribution": "ZPowerSpherical",
    "ZPowerCosmoDistribution": "ZPowerCosmo",
    "SFRDistribution": "SFR",
}
BUILTIN_LUM = {"ParetoDistribution": "Pareto", "BPLDistribution": "BPL", "LogNormalDistribution": "LogNormal",
               "Log10NormalDistribution": "Log10Normal", "SchechterDistribution": "Schechter"}


def builtin_class(spec):
    sp = BUILTIN.get(spec["spatial"]["type"])
    if sp is None:
        if spec["spatial"]["type"] == "SpiralGalaxyDistribution":
            from popsynth.populations.spatial_populations import MWRadialPopulation
            return MWRadialPopulation
        return None
    if spec["lum"] is not None and spec["lum"]["type"] in BUILTIN_LUM:
        return getattr(popsynth.populations, BUILTIN_LUM[spec["lum"]["type"]] + sp + "Population", None)
    return getattr(popsynth.populations, {"HomogeneousSpherical": "Spherical"}.get(sp, sp) + "Population", None)


def build(spec, shared=None):
    """Build the synth a specification describes.

    shared: optional dictionary of already built parts to use (by label).
    """
    shared = shared or {}
    w = World()
    cls = builtin_class(spec) if spec.get("route") == "builtin" else None
    lum = spec["lum"]
    if cls is not None:
        kw = dict(spec["spatial"]["params"])
        kw["seed"] = spec["seed"]
        pars = inspect.signature(cls.__init__).parameters
        if lum is not None:
            if "luminosity_distribution" in pars:
                kw["luminosity_distribution"] = build_distribution(lum)
            else:
                kw.update(lum["params"])
        for k, v in class_defaults(registered(distribution_registry, spec["spatial"]["type"])).items():
            # required by the class but left to the distribution's default
            if k in pars and pars[k].default is inspect.Parameter.empty:
                kw.setdefault(k, v)
        if "is_rate" in pars and "is_rate" in spec["spatial"]:
            kw["is_rate"] = spec["spatial"]["is_rate"]
        w.synth = cls(**kw)
        w.spatial = w.synth.spatial_distribution
        w.lum = w.synth.luminosity_distribution
        if "is_rate" in spec["spatial"] and "is_rate" not in pars:
            w.spatial._is_rate = spec["spatial"]["is_rate"]
    else:
        w.spatial = shared.get("spatial") or build_distribution(spec["spatial"])
        w.lum = None if lum is None else (shared.get("lum") or build_distribution(lum))
        w.synth = popsynth.PopulationSynth(w.spatial, luminosity_distribution=w.lum, seed=spec["seed"])
    attach(w, spec, shared)
    return w


def attach(w, spec, shared=None):
    shared = shared or {}
    w.shared_selectors = {}

    def selector(label, s):
        if s.get("share") is not None:
            key = s["share"]
            if key not in w.shared_selectors:
                w.shared_selectors[key] = shared.get("share:" + key) or build_selector(s)
            out = w.shared_selectors[key]
        else:
            out = build_selector(s)
        w.selectors[label] = out
        return out

    if spec.get("flux_sel"):
        w.synth.set_flux_selection(selector("flux", spec["flux_sel"]))
    if spec.get("dist_sel"):
        w.synth.set_distance_selection(selector("dist", spec["dist_sel"]))
    if spec.get("spat_sel"):
        w.synth.add_spatial_selector(selector("spat", spec["spat_sel"]))
    for name, a in spec["aux"].items():
        w.nodes[name] = shared.get("node:" + name) or build_sampler(name, a)
        if a.get("sel"):
            w.nodes[name].set_selection_probability(selector("aux:" + name, a["sel"]))
    for name, a in spec["aux"].items():
        for s in a["secondary"]:
            w.nodes[name].set_secondary_sampler(w.nodes[s])
    for name in spec["roots"]:
        if name == spec.get("derived"):
            # the two public ways of attaching
            w.synth.add_auxiliary_sampler(w.nodes[name])
        else:
            w.synth.add_observed_quantity(w.nodes[name])
    for name, start, stop, log in spec.get("spaces", []):
        w.synth.add_model_space(name, start, stop, log=log)


def draw(w, args):
    return w.synth.draw_survey(**args)


# --------------------------------------------------------------- generator

SPATIAL_TYPES = ("ConstantSphericalDistribution", "ZPowerSphericalDistribution", "ZPowerCosmoDistribution",
                 "SFRDistribution", "UniformCosmoDistribution", "SpiralGalaxyDistribution", "FlatlandDistribution",
                 "SimSpatial")
LUM_TYPES = ("ParetoDistribution", "BPLDistribution", "LogNormalDistribution", "Log10NormalDistribution",
             "SchechterDistribution", "DeltaDistribution", "LogUniLuminiosityDistribution", "SimLum")
AUX_TYPES = ("DeltaAuxSampler", "LogNormalAuxSampler", "Log10NormalAuxSampler", "NormalAuxSampler", "ParetoAuxSampler",
             "PowerLawAuxSampler", "BrokenPowerLawAuxSampler", "TruncatedNormalAuxSampler",
             "TruncatedLogNormalAuxSampler", "TruncatedLog10NormalAuxSampler", "ViewingAngleSampler")
SIM_AUX = ("SimNode", "SimDistNode", "SimLumNode", "SimSkyNode", "SimAllNode")


def r3(x):
    return float("%.4g" % x)


def uni(rng, a, b):
    return r3(rng.uniform(a, b))


def _quad(f, a, b, n=400):
    h = (b - a) / n
    return sum(f(a + (i + 0.5) * h) for i in range(n)) * h


def _dvdz(z, om=0.307, h0=67.7):
    """Comoving volume element in Gpc^3 per steradian."""
    dh = 299792.458 / h0
    n = 40
    h = z / n
    dm = dh * sum(1.0 / math.sqrt(om * (1 + (i + 0.5) * h) ** 3 + 1 - om) for i in range(n)) * h
    return dh * dm * dm / math.sqrt(om * (1 + z) ** 3 + 1 - om) * 1e-9


def unit_integral(d):
    """Expected number of objects for a unit normalisation (own formulas)."""
    p = d["params"]
    t = d["type"]
    R = p["r_max"]
    if t == "ConstantSphericalDistribution":
        return 4.0 / 3 * math.pi * R ** 3
    if t == "ZPowerSphericalDistribution":
        return _quad(lambda r: 4 * math.pi * r * r * (1 + r) ** p["delta"], 0, R)
    if t == "SimSpatial":
        return _quad(lambda r: 4 * math.pi * r * r * (1 + p["k"] * math.cos(r)) ** 2, 0, R)
    if t == "FlatlandDistribution":
        return R
    if t == "SpiralGalaxyDistribution":
        return _quad(lambda r: 4 * math.pi * r * r * ((r + p["R1"]) / (p["R0"] + p["R1"])) ** p["a"]
                     * math.exp(-p["b"] * (r - p["R0"]) / (p["R0"] + p["R1"])), 0, R)
    rate = (lambda z: 1 + z) if d.get("is_rate", True) else (lambda z: 1.0)
    if t == "ZPowerCosmoDistribution":
        return _quad(lambda z: _dvdz(z) * (1 + z) ** p["delta"] / rate(z), 0, R, 120)
    if t == "SFRDistribution":
        return _quad(lambda z: _dvdz(z) * (p["a"] + p["rise"] * z) / (1 + (z / p["peak"]) ** p["decay"]) / rate(z), 0, R, 120)
    if t == "UniformCosmoDistribution":
        return _quad(lambda z: _dvdz(z) / (p["zmax"] - p["zmin"]) / rate(z), 0, R, 120)
    raise KeyError(t)


NORM = {"ConstantSphericalDistribution": "Lambda", "ZPowerSphericalDistribution": "Lambda",
        "ZPowerCosmoDistribution": "Lambda", "SFRDistribution": "r0", "UniformCosmoDistribution": "r0",
        "SpiralGalaxyDistribution": "rho", "FlatlandDistribution": "Lambda", "SimSpatial": "Lambda"}
#: distributions whose prefactor is declared as their normalisation
NORMALIZED = tuple(k for k in NORM if k not in ("SpiralGalaxyDistribution", "FlatlandDistribution"))


# whether simulated surveys may have objects at the very same distance
TIES = True


def gen_spatial(rng, types=SPATIAL_TYPES, target=None):
    t = rng.choice(types)
    d = {"type": t, "params": {}}
    p = d["params"]
    if t in COSMO:
        p["r_max"] = uni(rng, 0.3, 5)
        d["is_rate"] = rng.random() < 0.6
        if t == "ZPowerCosmoDistribution":
            p["delta"] = uni(rng, -2, 2)
        elif t == "SFRDistribution":
            p.update(a=uni(rng, 0.005, 0.1), rise=uni(rng, 0.05, 0.5), decay=uni(rng, 2, 6), peak=uni(rng, 0.5, 4))
        else:
            p.update(zmin=uni(rng, 0, 1), zmax=uni(rng, 1.5, 5))
    elif t == "SpiralGalaxyDistribution":
        p.update(r_max=uni(rng, 8, 20), a=uni(rng, 1, 2), b=uni(rng, 2, 5), R1=uni(rng, 0.2, 1), R0=uni(rng, 6, 9))
    else:
        p["r_max"] = uni(rng, 0.5, 15)
        if t == "ZPowerSphericalDistribution":
            p["delta"] = uni(rng, -2, 2)
        if t == "SimSpatial":
            p["k"] = uni(rng, -0.8, 0.8)
            if TIES and rng.random() < 0.3:
                p["step"] = r3(p["r_max"] / rng.choice([3, 5, 8]))
    n = target if target is not None else rng.choice([0.5, 3, 10, 20, 40, 60])
    p[NORM[t]] = r3(n / max(unit_integral(d), 1e-12))
    # some parameters may be left to their defaults
    if t in ("ZPowerSphericalDistribution", "SimSpatial") and rng.random() < 0.15:
        p.pop("delta", None)
        p.pop("k", None)
        p[NORM[t]] = r3(n / max(unit_integral({"type": t, "params": dict(p, delta=1.0, k=0.3)}), 1e-12))
    return d


def near_minus_one(rng):
    """The index at which power laws integrate to a logarithm, and close to it."""
    return rng.choice([-1.0, -1.0, r3(-1 + rng.uniform(-0.1, 0.1)), -1 + rng.choice([1, -1]) * 10 ** rng.uniform(-6, -1)])


def gen_lum(rng, types=LUM_TYPES):
    t = rng.choice(types)
    p = {}
    if t == "ParetoDistribution":
        p = {"Lmin": uni(rng, 0.1, 100), "alpha": uni(rng, 0.5, 3)}
    elif t == "BPLDistribution":
        a = near_minus_one(rng) if rng.random() < 0.2 else uni(rng, -2.5, 0.5)
        p = {"Lmin": uni(rng, 0.1, 1), "alpha": a, "Lbreak": uni(rng, 2, 10), "beta": uni(rng, -4, -1.2), "Lmax": uni(rng, 20, 200)}
    elif t == "LogNormalDistribution":
        p = {"mu": uni(rng, -1, 5), "tau": uni(rng, 0.1, 1.5)}
    elif t == "Log10NormalDistribution":
        p = {"mu": uni(rng, -1, 3), "tau": uni(rng, 0.1, 0.8)}
    elif t == "SchechterDistribution":
        p = {"Lmin": uni(rng, 0.1, 10), "alpha": uni(rng, -0.8, 2)}
    elif t == "DeltaDistribution":
        p = {"Lp": uni(rng, 0.5, 50)}
    elif t == "LogUniLuminiosityDistribution":
        p = {"Lmin": uni(rng, 0.1, 1), "Lmax": uni(rng, 2, 100)}
    else:
        p = {"Lc": uni(rng, 0.5, 5), "s": uni(rng, 1.2, 4)}
        if rng.random() < 0.2:
            p.pop("s")
        if rng.random() < 0.5:
            p["tilt"] = rng.choice([0.0, 0.5, -1.0])
    return {"type": t, "params": p}


def gen_aux_params(rng, t):
    p = _aux_params(rng, t)
    r = rng.random()
    if r < 0.08 and "sigma" in p:
        # errors that are absent or hardly visible
        p["sigma"] = rng.choice([0.0, 1e-7, 1e-6, 1e-5])
    elif r < 0.12 and t in ("NormalAuxSampler", "SimNode", "DeltaAuxSampler"):
        # large values
        p["xp" if t == "DeltaAuxSampler" else "mu"] = rng.choice([1, -1]) * rng.choice([1e5, 1e8, 1e12])
    return p


def _aux_params(rng, t):
    if t == "DeltaAuxSampler":
        p = {"xp": uni(rng, -5, 5), "sigma": uni(rng, 0.1, 2)}
    elif t in ("LogNormalAuxSampler", "Log10NormalAuxSampler", "NormalAuxSampler"):
        p = {"mu": uni(rng, -1, 2), "tau": uni(rng, 0.1, 1), "sigma": uni(rng, 0.1, 1)}
    elif t == "ParetoAuxSampler":
        p = {"xmin": uni(rng, 0.1, 5), "alpha": uni(rng, 0.5, 4), "sigma": uni(rng, 0.1, 1)}
    elif t == "PowerLawAuxSampler":
        p = {"xmin": uni(rng, 0.1, 2), "xmax": uni(rng, 3, 50), "alpha": near_minus_one(rng) if rng.random() < 0.2 else uni(rng, -3, 2), "sigma": uni(rng, 0.1, 1)}
    elif t == "BrokenPowerLawAuxSampler":
        return {"xmin": uni(rng, 0.1, 1), "alpha": near_minus_one(rng) if rng.random() < 0.2 else uni(rng, -2.5, 1), "xbreak": uni(rng, 2, 10), "beta": uni(rng, -4, -1.2),
                "xmax": uni(rng, 20, 100), **({} if rng.random() < 0.2 else {"sigma": uni(rng, 0.1, 1)})}
    elif t == "TruncatedNormalAuxSampler":
        return {"mu": uni(rng, -1, 1), "tau": uni(rng, 0.3, 2), "lower": uni(rng, -3, -0.5), "upper": uni(rng, 0.5, 3), "sigma": uni(rng, 0.1, 1)}
    elif t == "TruncatedLogNormalAuxSampler":
        return {"mu": uni(rng, -0.5, 1), "tau": uni(rng, 0.3, 1), "lower": 0.0 if rng.random() < 0.3 else uni(rng, 0.05, 0.8), "upper": uni(rng, 2, 30), "sigma": uni(rng, 0.1, 1)}
    elif t == "TruncatedLog10NormalAuxSampler":
        return {"mu": uni(rng, -0.5, 0.5), "tau": uni(rng, 0.2, 0.8), "lower": 0.0 if rng.random() < 0.3 else uni(rng, 0.05, 0.8), "upper": uni(rng, 2, 30), "sigma": uni(rng, 0.1, 1)}
    elif t == "ViewingAngleSampler":
        p = {"max_angle": uni(rng, 5, 180)}
    elif t.startswith("SimDerived"):
        p = {"mu": uni(rng, -1, 3), "tau": uni(rng, 0.1, 1.5)}
    else:
        p = {"mu": uni(rng, -2, 4), "tau": uni(rng, 0.1, 2), "sigma": uni(rng, 0.05, 1)}
    # leave some parameters at their defaults
    for k in list(p):
        if rng.random() < 0.1:
            p.pop(k)
    return p


def gen_selection(rng, use, hard_only=False, kinds=None, positive=False):
    """use: obs, dist, lum or flux: the value it selects on."""
    kinds = kinds or ["LowerBound", "UpperBound", "BoxSelection", "SimSelection", "BernoulliSelection", "SoftSelection",
                      "UnitySelection"]
    if hard_only:
        kinds = [k for k in kinds if k not in ("BernoulliSelection", "SoftSelection", "SoftFluxSelection")]
    if not positive:
        kinds = [k for k in kinds if k not in ("SoftSelection",)]
    if use == "flux":
        kinds = kinds + ["HardFluxSelection"] * 2 + ([] if hard_only else ["SoftFluxSelection"])
    t = rng.choice(kinds)
    s = {"type": t, "params": {}, "use": use}
    if t in ("LowerBound", "HardFluxSelection"):
        s["params"]["boundary"] = {"q": round(rng.choice([0, 0.1, 0.3, 0.5, 0.7, 1.0]) if rng.random() < 0.4 else rng.random() * 0.7, 3)}
    elif t == "UpperBound":
        s["params"]["boundary"] = {"q": round(rng.choice([0, 0.3, 0.5, 0.9, 1.0]) if rng.random() < 0.4 else 0.3 + rng.random() * 0.7, 3)}
    elif t == "BoxSelection":
        s["params"]["vmin"] = {"q": round(rng.random() * 0.4, 3)}
        s["params"]["vmax"] = {"q": round(0.5 + rng.random() * 0.5, 3)}
    elif t in ("SoftSelection", "SoftFluxSelection"):
        s["params"]["boundary"] = {"q": round(rng.random() * 0.6, 3)}
        s["params"]["strength"] = uni(rng, 0.5, 20)
    elif t == "BernoulliSelection":
        s["params"]["probability"] = rng.choice([0.0, 1.0, uni(rng, 0.2, 0.9), uni(rng, 0.2, 0.9), uni(rng, 0.2, 0.9)])
        if rng.random() < 0.15:
            s["params"].pop("probability")
    elif t == "SimSelection":
        s["params"] = {"k": uni(rng, 0.5, 8), "cut": uni(rng, 0.05, 0.6)}
    if t in ("BernoulliSelection", "UnitySelection", "HardFluxSelection", "SoftFluxSelection"):
        s["use"] = None
    if t in ("UnitySelection",):
        s["params"] = {}
    return s


#: aux types whose observed values are positive when not observed with error
POSITIVE = ("LogNormalAuxSampler", "Log10NormalAuxSampler", "ParetoAuxSampler", "PowerLawAuxSampler",
            "BrokenPowerLawAuxSampler", "TruncatedLogNormalAuxSampler", "TruncatedLog10NormalAuxSampler",
            "ViewingAngleSampler")


def keep_positive(a):
    """Soft selections need positive values."""
    sel = a.get("sel")
    if sel and sel["type"] == "SoftSelection" and sel.get("use", "obs") == "obs" and (a["observed"] or a["type"] not in POSITIVE):
        a["sel"] = None


def gen_graph(rng, max_nodes=6, sim_fraction=0.5, derived_prob=0.25, sel_prob=0.4, hard_only=False, types=None,
              share_prob=0.2):
    """A directed acyclic graph of samplers; returns aux, roots, derived."""
    k = rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, max_nodes])
    k = min(k, max_nodes)
    aux = {}
    names = []
    pool = ["alpha", "n1", "n2", "x", "log_e", "tau_", "zz", "Beta", "n10", "n 7", "E/B", "f%2F"]
    rng.shuffle(pool)
    has_va = False
    for i in range(k):
        if types is not None:
            t = rng.choice(types)
        else:
            t = rng.choice(SIM_AUX) if rng.random() < sim_fraction else rng.choice(AUX_TYPES)
        if t == "ViewingAngleSampler":
            if has_va:
                t = "NormalAuxSampler"
            else:
                has_va = True
        name = "va" if t == "ViewingAngleSampler" else pool[i]
        names.append(name)
        aux[name] = {"type": t, "observed": t != "ViewingAngleSampler" and rng.random() < 0.6,
                     "params": gen_aux_params(rng, t), "secondary": [], "sel": None}
    # names[i] may depend on any later one
    shape = rng.choice(["flat", "chain", "tree", "dag", "fan"])
    used = set()
    for i in range(k - 1, 0, -1):
        if shape == "flat":
            continue
        if shape == "chain":
            parents = [names[i - 1]]
        elif shape == "fan":
            parents = [names[0]]
        elif shape == "tree":
            parents = [names[rng.randrange(i)]] if rng.random() < 0.7 else []
        else:
            parents = [p for p in names[:i] if rng.random() < 0.4]
        for p in parents:
            aux[p]["secondary"].append(names[i])
            used.add(names[i])
    for a in aux.values():
        rng.shuffle(a["secondary"])
    roots = [n for n in names if n not in used]
    derived = None
    if rng.random() < derived_prob:
        derived = "dl"
        secs = [n for n in roots if rng.random() < 0.5]
        if rng.random() < 0.3 and shape == "dag":
            secs += [n for n in sorted(used) if rng.random() < 0.3 and n not in secs]
        t = rng.choice(["SimDerived", "SimDerivedDist"])
        aux["dl"] = {"type": t, "observed": False, "params": gen_aux_params(rng, t), "secondary": secs, "sel": None}
        roots = [n for n in roots if n not in secs]
        # luminosities are not known to what feeds them
        for n in sorted(reachable(aux, "dl")):
            if aux[n]["type"] in ("SimLumNode", "SimAllNode"):
                aux[n]["type"] = rng.choice(["SimNode", "SimDistNode", "SimSkyNode"])
    rng.shuffle(roots)
    if derived:
        roots.insert(rng.randrange(len(roots) + 1), "dl")
    under = reachable(aux, "dl") if derived else set()
    shares = {}
    for n, a in aux.items():
        if rng.random() >= sel_prob:
            continue
        positive = a["type"] in POSITIVE and not a["observed"]
        uses = ["obs"] * 4
        # whether the sampler itself depends on them or not
        uses += ["dist"] * (2 if a["type"] in ("SimDistNode", "SimAllNode", "SimDerivedDist") else 1)
        if n not in under and n != "dl":
            uses.append("lum")
        u = rng.choice(uses)
        a["sel"] = gen_selection(rng, u, hard_only=hard_only, positive=positive or u in ("dist", "lum"))
        if rng.random() < share_prob:
            key = f"{u}:{a['sel']['type']}"
            if key in shares and a["sel"]["type"] != "SoftSelection":
                a["sel"] = dict(copy.deepcopy(shares[key]), share=key)
                shares[key]["share"] = key
            else:
                shares[key] = a["sel"]
    return aux, roots, derived


def reachable(aux, name):
    out = set()
    stack = list(aux[name]["secondary"])
    while stack:
        n = stack.pop()
        if n not in out:
            out.add(n)
            stack += aux[n]["secondary"]
    return out


#: how often a survey is a large one
BIG = 0.015


def gen_draw(rng, sized=None):
    d = {}
    r = rng.random()
    if r < 0.5:
        d["flux_sigma"] = rng.choice([uni(rng, 0.05, 1.0), uni(rng, 0.05, 1.0), uni(rng, 0.05, 1.0), r3(10 ** rng.uniform(-9, -1.3)), 0.0])
    if rng.random() < 0.3:
        d["log10_flux_draw"] = rng.random() < 0.5
    r = rng.random()
    if sized is not None:
        d["n_samples"] = sized
    elif r < 0.3:
        d["n_samples"] = rng.choice([0, 1, 2, 5, 13, 30, 50])
    if rng.random() < 0.3:
        d["normalize"] = True
    if rng.random() < BIG and sized is None:
        # what is done for large surveys has to be the same
        d["n_samples"] = rng.choice([120, 300, 300, 1050, 1050, 2200])
    return d


def gen_spec(rng, **kw):
    """One population synth.  Keyword arguments narrow the choice."""
    spat_types = kw.get("spatial_types", SPATIAL_TYPES)
    spec = {"seed": rng.choice([0, 1, 1234, rng.randrange(1, 2 ** 31), rng.randrange(2 ** 31, 2 ** 32)]), "route": "synth"}
    spec["spatial"] = gen_spatial(rng, spat_types, kw.get("target"))
    aux, roots, derived = gen_graph(
        rng, max_nodes=kw.get("max_nodes", 6), sim_fraction=kw.get("sim_fraction", 0.5),
        derived_prob=kw.get("derived_prob", 0.25), sel_prob=kw.get("sel_prob", 0.4),
        hard_only=kw.get("hard_only", False), types=kw.get("aux_types"), share_prob=kw.get("share_prob", 0.2))
    spec.update(aux=aux, roots=roots, derived=derived)
    spec["lum"] = gen_lum(rng, kw.get("lum_types", LUM_TYPES))
    if derived and rng.random() < 0.5:
        spec["lum"] = None
    if rng.random() < kw.get("builtin_prob", 0.15):
        sp = [t for t in BUILTIN if t in spat_types]
        lu = [t for t in BUILTIN_LUM if t in kw.get("lum_types", LUM_TYPES)]
        if sp and lu:
            spec["route"] = "builtin"
            spec["spatial"] = gen_spatial(rng, sp, kw.get("target"))
            spec["spatial"]["params"].setdefault("delta", 1.0) if spec["spatial"]["type"] == "ZPowerSphericalDistribution" else None
            if rng.random() < 0.1 and "SpiralGalaxyDistribution" in spat_types:
                spec["spatial"] = gen_spatial(rng, ("SpiralGalaxyDistribution",), kw.get("target"))
            spec["lum"] = gen_lum(rng, lu)
    p = kw.get("sel_prob", 0.4)
    hard = kw.get("hard_only", False)
    spec["flux_sel"] = gen_selection(rng, "flux", hard_only=hard, positive=True) if rng.random() < max(p, 0.5) and p > 0 else None
    spec["dist_sel"] = gen_selection(rng, "dist", hard_only=hard, positive=True) if rng.random() < p else None
    spec["spat_sel"] = None
    if rng.random() < p * 0.6:
        kinds = ["SimSpatialSelection", "DistanceSelection"]
        if spec["spatial"]["type"] != "SpiralGalaxyDistribution":
            kinds.append("GalacticPlaneSelection")
        t = rng.choice(kinds)
        pp = {"SimSpatialSelection": {"lo": uni(rng, 0.1, 1), "hi": uni(rng, 1.5, 3)},
              "DistanceSelection": {"min_distance": {"q": round(rng.random() * 0.4, 3), "of": "dist"}, "max_distance": {"q": round(0.5 + rng.random() * 0.5, 3), "of": "dist"}},
              "GalacticPlaneSelection": {"b_limit": uni(rng, 1, 50)}}[t]
        spec["spat_sel"] = {"type": t, "params": pp, "use": None}
    spec["spaces"] = []
    if rng.random() < 0.25:
        spec["spaces"] = [[rng.choice(["grid%d", "log L/erg %d"]) % i, uni(rng, 0.1, 1), uni(rng, 2, 100), rng.random() < 0.5] for i in range(rng.choice([1, 2]))]
    spec["draw"] = gen_draw(rng)
    return spec


# ------------------------------------------------- boundaries from a pilot


def _selections(spec):
    for key in ("flux_sel", "dist_sel", "spat_sel"):
        if spec.get(key):
            yield key[:4], spec[key]
    for n, a in spec["aux"].items():
        if a.get("sel"):
            yield n, a["sel"]


def unresolved(spec):
    return any(isinstance(v, dict) for _, s in _selections(spec) for v in s["params"].values())


def open_selections(spec):
    """The specification with every unresolved boundary wide open."""
    out = copy.deepcopy(spec)
    for _, s in _selections(out):
        for k, v in list(s["params"].items()):
            if isinstance(v, dict):
                low = k in ("vmin", "min_distance") or (k == "boundary" and s["type"] in ("LowerBound", "HardFluxSelection"))
                if s["type"] in ("SoftSelection", "SoftFluxSelection"):
                    s["params"][k] = 1.0
                elif k == "min_distance":
                    s["params"][k] = 0.0
                else:
                    s["params"][k] = -1e300 if low else 1e300
    return out


def _pilot_values(spec):
    w = build(open_selections(spec))
    pop = draw(w, spec["draw"])
    out = {"flux": np.asarray(pop.fluxes).tolist(), "dist": np.asarray(pop.distances).tolist(), "lum": np.asarray(pop.luminosities).tolist()}
    for n in spec["aux"]:
        out["obs:" + n] = np.asarray(getattr(pop, n)).tolist()
    return out


def resolve(spec, ctx):
    """Replace quantile boundaries by actual values of a pilot survey."""
    if not unresolved(spec):
        return spec
    values = ctx.fork(_pilot_values, spec)
    out = copy.deepcopy(spec)
    done = {}
    for owner, s in _selections(out):
        use = s.get("use")
        if use is None:
            use = {"flux": "flux", "dist": "dist"}.get(owner, "obs")
        for k, v in list(s["params"].items()):
            if not isinstance(v, dict):
                continue
            u = v.get("of", use)
            if s.get("share") is not None and (s["share"], k) in done:
                s["params"][k] = done[(s["share"], k)]
                continue
            vals = values["obs:" + owner] if u == "obs" else values[u]
            vals = sorted(x for x in vals if x == x)
            if not vals:
                x = 1.0
            else:
                x = vals[min(len(vals) - 1, int(v["q"] * len(vals)))]
            if k in ("min_distance", "max_distance"):
                x = max(0.0, x)
            if s["type"] in ("SoftSelection", "SoftFluxSelection") and not x > 0:
                x = 1.0
            s["params"][k] = float(x)
            if s.get("share") is not None:
                done[(s["share"], k)] = float(x)
    return out


def shape(spec):
    """A short signature of what a specification exercises."""
    return (
        spec["route"], spec["spatial"]["type"], spec["spatial"].get("is_rate"),
        spec["lum"] and spec["lum"]["type"], spec["derived"] and spec["aux"][spec["derived"]]["type"],
        tuple(sorted((a["type"], a["observed"], len(a["secondary"]), (a["sel"] or {}).get("type", "")) for a in spec["aux"].values())),
        tuple((spec.get(k) or {}).get("type") for k in ("flux_sel", "dist_sel", "spat_sel")),
        tuple(sorted((k, v if isinstance(v, bool) else "x") for k, v in spec.get("draw", {}).items())),
    )


# ------------------------------------------------------------------ shrink


def shrink_spec(spec):
    """Simpler specifications, most drastic first."""

    def c():
        return copy.deepcopy(spec)

    if spec["aux"]:
        s = c()
        if not (s["derived"] and s["lum"] is None):
            s.update(aux={}, roots=[], derived=None)
            yield s
    for n in list(spec["aux"]):
        if n == spec["derived"]:
            if spec["lum"] is None:
                continue
        s = c()
        gone = s["aux"].pop(n)
        for a in s["aux"].values():
            a["secondary"] = [x for x in a["secondary"] if x != n]
        pos = s["roots"].index(n) if n in s["roots"] else None
        s["roots"] = [x for x in s["roots"] if x != n]
        if s["derived"] == n:
            s["derived"] = None
        used = {x for a in s["aux"].values() for x in a["secondary"]}
        s["roots"] += [x for x in gone["secondary"] if x not in used and x not in s["roots"]]
        yield s
    for key in ("flux_sel", "dist_sel", "spat_sel"):
        if spec.get(key):
            s = c()
            s[key] = None
            yield s
    if spec.get("spaces"):
        s = c()
        s["spaces"] = []
        yield s
    for n, a in spec["aux"].items():
        if a.get("sel"):
            s = c()
            s["aux"][n]["sel"] = None
            yield s
    for n, a in spec["aux"].items():
        for x in a["secondary"]:
            s = c()
            s["aux"][n]["secondary"].remove(x)
            used = {y for b in s["aux"].values() for y in b["secondary"]}
            if x not in used and x not in s["roots"]:
                s["roots"].append(x)
            yield s
    if spec["route"] == "builtin":
        s = c()
        s["route"] = "synth"
        yield s
    for k in list(spec["draw"]):
        s = c()
        s["draw"].pop(k)
        yield s
    if spec["draw"].get("n_samples", 0) not in (0, 1, 2):
        for m in (1, 2):
            s = c()
            s["draw"]["n_samples"] = m
            yield s
    if spec["spatial"]["type"] != "ConstantSphericalDistribution":
        s = c()
        s["spatial"] = {"type": "ConstantSphericalDistribution", "params": {"Lambda": 0.6, "r_max": 2.0}}
        yield s
    if spec["lum"] is not None and spec["lum"]["type"] != "ParetoDistribution":
        s = c()
        s["lum"] = {"type": "ParetoDistribution", "params": {"Lmin": 1.0, "alpha": 1.5}}
        yield s
    for n, a in spec["aux"].items():
        if a["type"] not in ("SimNode", "NormalAuxSampler", "SimDerived"):
            s = c()
            s["aux"][n].update(type="SimDerived" if n == spec["derived"] else "SimNode", params={})
            keep_positive(s["aux"][n])
            yield s
        if a["observed"]:
            s = c()
            s["aux"][n]["observed"] = False
            yield s


def shrink_list(items):
    """Shorter versions of a list (halves, then single removals)."""
    n = len(items)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            out = items[:i] + items[i + size:]
            if len(out) < n:
                yield out
        size //= 2
