"""C21: the recorded probability of an object is that of its own draws."""
import math

import numpy as np

import history
import ops
import popsynth
import world
from engine import Check, Violation
from popsynth import AuxiliarySampler
from popsynth.auxiliary_sampler import AuxiliaryParameter
from props.c14 import spatial_density

TOLERANCE = {t: 1e-2 for t in world.COSMO}


class SimLikely(AuxiliarySampler):
    """A sampler that tells how probable its values are."""

    _auxiliary_sampler_name = "SimLikely"
    mu = AuxiliaryParameter(default=0.0)
    tau = AuxiliaryParameter(default=1.0, vmin=0)

    def __init__(self, name, observed=True):
        super(SimLikely, self).__init__(name=name, observed=observed)

    def true_sampler(self, size):
        world.fire("true", self)
        x = self.mu + self.tau * np.random.normal(size=size)
        for s in self._secondary_samplers.values():
            x = x + 0.1 * np.tanh(s.true_values)
        self._true_values = x

    def observation_sampler(self, size):
        world.fire("obs", self)
        self._obs_values = self._true_values + (np.random.normal(size=size) if self._is_observed else 0)

    def _compute_probability(self):
        return likely(self._true_values, self.mu)


def likely(x, mu):
    return 1.0 / (1.0 + np.square(np.asarray(x) - mu))


def density(d, defaults):
    """A luminosity density up to a constant."""
    t, p = d["type"], dict(defaults, **d["params"])
    if t == "ParetoDistribution":
        return lambda x: x ** -(p["alpha"] + 1)
    if t == "BPLDistribution":
        return lambda x: np.where(x < p["Lbreak"], (x / p["Lbreak"]) ** p["alpha"], (x / p["Lbreak"]) ** p["beta"])
    if t == "LogNormalDistribution":
        return lambda x: np.exp(-(np.log(x) - p["mu"]) ** 2 / (2 * p["tau"] ** 2)) / x
    if t == "Log10NormalDistribution":
        return lambda x: np.exp(-(np.log10(x) - p["mu"]) ** 2 / (2 * p["tau"] ** 2)) / x
    if t == "SchechterDistribution":
        return lambda x: x ** p["alpha"] * np.exp(-x / p["Lmin"])
    if t == "LogUniLuminiosityDistribution":
        return lambda x: 1 / x
    if t == "DeltaDistribution":
        return lambda x: np.ones_like(x)
    if t == "SimLum":
        return lambda x: x ** (p["tilt"] - 1) * (x / p["Lc"]) ** p["s"] / (1 + (x / p["Lc"]) ** p["s"]) ** 2
    return None


class _W(object):
    def __init__(self, synth):
        self.synth = synth


class C21(Check):
    cid = "C21"
    level = "exploration"
    technique = ("seeded simulation of histories over random configurations; the recorded probabilities of every survey are compared with "
                 "independently computed densities of its objects' own values")
    rule = ("a run is one random synth with a random history of draws, failing draws and changes, with progress bars on or off; every "
            "survey of at least two objects is checked; non-trivial if one was; distinct by configuration and history")
    state_measure = "distinct (spatial and luminosity types, samplers with selections, normalised, progress bars)"
    real = ["all of popsynth's drawing code", "numpy generators"]
    stub = ["simulated user samplers, selectors and distributions (sim/world.py, one with probabilities here)"]
    assumptions = ["probabilities are compared up to a constant for each survey; to one per cent for cosmological distances",
                   "a sampler adds to the probability where it has a selection of its own; distances in a spiral galaxy, which are "
                   "smeared after they were drawn, are left out"]
    quick_n = 1200
    thorough_n = 50000

    def prepare(self):
        self.defaults = {}
        for t in world.SPATIAL_TYPES + world.LUM_TYPES:
            self.defaults[t] = world.class_defaults(world.registered(world.distribution_registry, t))
        self.defaults["ViewingAngleSampler"] = world.class_defaults(world.registered(world.auxiliary_parameter_registry, "ViewingAngleSampler"))

    def gen(self, rng, index, tier):
        spatial = [t for t in world.SPATIAL_TYPES if t != "SpiralGalaxyDistribution"]
        lum = list(world.LUM_TYPES) + ["SimLum"] * 2
        spec, hist, names = history.gen(rng, rng.choice([0, 2, 4, 8]), draws=3, target=rng.choice([5, 15, 30]), spatial_types=spatial, lum_types=lum,
                                        sel_prob=0.6, derived_prob=0.15)
        for a in spec["aux"].values():
            if a["type"] in ("SimNode", "NormalAuxSampler", "SimSkyNode", "DeltaAuxSampler") and rng.random() < 0.5:
                a["type"] = "SimLikely"
                a["params"] = {"mu": world.uni(rng, -1, 1), "tau": world.uni(rng, 0.3, 3)}
        ok = []
        for op in hist:
            # nothing outside what has a known density
            if op[0] == "synth" and (op[3] and op[3]["type"] == "SpiralGalaxyDistribution"):
                break
            if op[0] == "params" and op[1] == "n":
                op[3] = {k: v for k, v in op[3].items() if k in ("mu", "tau", "max_angle")}
            ok.append(op)
        for n in names:
            args = dict(world.gen_draw(rng), **({"n_samples": rng.choice([5, 20, 60])} if rng.random() < 0.5 else {}))
            ok.append(["draw", n, args])
            if n == "A" and spec["lum"] and rng.random() < 0.5:
                # the same survey under another luminosity distribution
                p = world.gen_lum(rng, (spec["lum"]["type"],))["params"]
                if p:
                    k = "tilt" if "tilt" in p else rng.choice(sorted(p))
                    ok += [["params", "d", "d:A:lum", {k: p[k]}], ["draw", n, args]]
        return {"spec": spec, "ops": ok, "progress": rng.random() < 0.3}

    def run(self, sc, ctx):
        spec = world.resolve(sc["spec"], ctx)
        ops.set_progress(sc["progress"])
        model = history.Model()
        model.load("A", spec)
        real = history.Real()
        real.load(model, "A", spec)
        checked = 0
        kinds = []
        for op in sc["ops"]:
            if op[0] == "params" and op[1] == "n" and op[2] in real.nodes:
                # types are not what they were when the history was made up
                op = op[:3] + [{k: v for k, v in op[3].items() if any(k in vars(c) for c in type(real.nodes[op[2]]).mro())}]
            if not model.apply(op):
                continue
            ctx.steps += 1
            kinds.append(op[0])
            if op[0] == "draw":
                checked += self.verify(model, op[1], op[2], real.synths[op[1]].draw_survey(**op[2]), sc, ctx)
            elif op[0] == "fail":
                if ops.fail_draw(_W(real.synths[op[1]]), op[2], op[3]):
                    ctx.fault("failing_draw")
            elif op[0] == "peek":
                s = real.synths[op[1]]
                {"repr": lambda: repr(s), "graph": lambda: s.graph, "to_dict": s.to_dict}.get(op[2], lambda: None)()
            else:
                real.apply(op, model)
        ctx.nontrivial = checked > 0
        ctx.sig = repr((world.shape(spec), kinds, sc["progress"]))
        ctx.samples = {"spatial": spec["spatial"]["type"], "luminosity": spec["lum"] and spec["lum"]["type"], "history": kinds, "surveys_checked": checked}

    def verify(self, model, name, args, pop, sc, ctx):
        s = model.synths[name]
        got = np.asarray(pop.probability, dtype=float)
        n = int(pop.n_objects)
        if got.shape != (n,):
            raise Violation("probability-shape", f"{got.shape} probabilities of {n} objects")
        d = model.dists[s["spatial"]]
        d = dict(d, params=dict(self.defaults[d["type"]], **d["params"]))
        if d["type"] == "SpiralGalaxyDistribution":
            return 0
        want = spatial_density(d)(np.asarray(pop.distances, dtype=float)) * np.ones(n)
        parts = [d["type"]]
        if not s["derived"]:
            lum = model.dists[s["lum"]]
            f = density(lum, self.defaults[lum["type"]])
            if f is None:
                return 0
            want = want * f(np.asarray(pop.luminosities, dtype=float))
            parts.append(lum["type"])
        for i in model.members(name):
            node = model.nodes[i]
            if not node["sel"] or model.sels[node["sel"]]["type"] == "UnitySelection":
                continue
            x = np.asarray(getattr(pop, node["name"]).latent, dtype=float)
            if node["type"] == "SimLikely":
                want = want * likely(x, node["params"].get("mu", 0.0))
                parts.append(node["name"])
            elif node["type"] == "ViewingAngleSampler":
                want = want * np.sin(x)
                parts.append(node["name"])
        ctx.event(name, n, parts)
        ctx.state(d["type"], s["lum"] and model.dists[s["lum"]]["type"], len(parts), bool(args.get("normalize")), sc["progress"])
        ok = np.isfinite(want) & (want > 1e-280) & (want < 1e280)
        if (~np.isfinite(got) | (got < 0))[ok].any():
            raise Violation("probability-wrong", f"probabilities of synth {name}: {got[ok][:5]}")
        if ok.sum() < 2:
            return 0
        ratio = got[ok] / want[ok]
        mid = float(np.median(ratio))
        tol = TOLERANCE.get(d["type"], 1e-6)
        bad = np.abs(ratio - mid) > tol * mid
        if mid <= 0 or bad.any():
            i = int(np.argmax(np.abs(ratio - mid)))
            raise Violation("probability-wrong", f"probabilities of synth {name} are not proportional to the densities of {parts}: object {i} of "
                            f"{n} has {got[ok][i]}, {mid * want[ok][i]} is expected from the others")
        ctx.probe("probabilities_checked", int(ok.sum()))
        return 1

    def shrink(self, sc):
        if sc["progress"]:
            yield dict(sc, progress=False)
        for l in world.shrink_list(sc["ops"]):
            yield dict(sc, ops=l)
        for s in world.shrink_spec(sc["spec"]):
            yield dict(sc, spec=s)


CHECK = C21
