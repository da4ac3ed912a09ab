"""C12: a drawn population is a snapshot and separate objects do not interfere."""
import copy
import os

import numpy as np

import canon
import history
import ops
import popsynth
import world
from engine import Check, Violation

NAN = "nan"
#: declared lower and upper bounds, {type: {parameter: (low, high)}}
BOUNDS = {
    "ConstantSphericalDistribution": {"r_max": (0, None), "Lambda": (0, None)},
    "ZPowerSphericalDistribution": {"r_max": (0, None), "Lambda": (0, None)},
    "ZPowerCosmoDistribution": {"r_max": (0, None), "Lambda": (0, None)},
    "SFRDistribution": {"r_max": (0, None), "r0": (0, None), "a": (0, None), "peak": (0, None)},
    "UniformCosmoDistribution": {"r_max": (0, None), "r0": (0, None), "zmin": (0, None), "zmax": (0, None)},
    "SpiralGalaxyDistribution": {"r_max": (0, None), "rho": (0, None)},
    "FlatlandDistribution": {"r_max": (0, None), "Lambda": (0, None)},
    "SimSpatial": {"r_max": (0, None), "Lambda": (0, None), "step": (0, None)},
    "ParetoDistribution": {"Lmin": (0, None)},
    "BPLDistribution": {"Lmin": (0, None), "Lbreak": (0, None), "Lmax": (0, None)},
    "LogNormalDistribution": {"tau": (0, None)},
    "Log10NormalDistribution": {"tau": (0, None)},
    "SchechterDistribution": {"Lmin": (0, None)},
    "DeltaDistribution": {"Lp": (0, None)},
    "LogUniLuminiosityDistribution": {"Lmin": (0, None), "Lmax": (0, None)},
    "SimLum": {"Lc": (0, None), "s": (0.1, None)},
    "DeltaAuxSampler": {"sigma": (0, None)},
    "LogNormalAuxSampler": {"tau": (0, None), "sigma": (0, None)},
    "Log10NormalAuxSampler": {"tau": (0, None), "sigma": (0, None)},
    "NormalAuxSampler": {"tau": (0, None), "sigma": (0, None)},
    "ParetoAuxSampler": {"xmin": (0, None), "alpha": (0, None), "sigma": (0, None)},
    "PowerLawAuxSampler": {"xmin": (0, None), "xmax": (0, None), "sigma": (0, None)},
    "BrokenPowerLawAuxSampler": {"xmin": (0, None), "xbreak": (0, None), "xmax": (0, None), "sigma": (0, None)},
    "TruncatedNormalAuxSampler": {"tau": (0, None), "sigma": (0, None)},
    "TruncatedLogNormalAuxSampler": {"tau": (0, None), "sigma": (0, None), "lower": (0, None), "upper": (0, None)},
    "TruncatedLog10NormalAuxSampler": {"tau": (0, None), "sigma": (0, None), "lower": (0, None), "upper": (0, None)},
    "ViewingAngleSampler": {"max_angle": (0, 180)},
    "GalacticPlaneSelection": {"b_limit": (0, 90)},
    "DistanceSelection": {"min_distance": (0, None), "max_distance": (0, None)},
    "BernoulliSelection": {"probability": (0, 1)},
    "SoftSelection": {"strength": (0, None)},
    "SoftFluxSelection": {"strength": (0, None)},
    "SimSelection": {"cut": (0, 1)},
}
for _t in world.SIM_AUX:
    BOUNDS[_t] = {"tau": (0, None), "sigma": (0, None)}
for _t in ("SimDerived", "SimDerivedDist"):
    BOUNDS[_t] = {"tau": (0, None)}

SELECTIONS = ("LowerBound", "UpperBound", "BoxSelection", "BernoulliSelection", "SoftSelection", "HardFluxSelection",
              "SoftFluxSelection", "GalacticPlaneSelection", "DistanceSelection", "SimSelection", "SimSpatialSelection", "UnitySelection")


def new_object(t):
    if t in world.SPATIAL_TYPES + world.LUM_TYPES:
        return world.build_distribution({"type": t, "params": {}})
    if t in SELECTIONS:
        return world.build_selector({"type": t, "params": {}})
    return world.build_sampler("fresh", {"type": t, "params": {}, "observed": True})


def parameters(obj):
    d = obj.parameters if hasattr(obj, "parameters") else obj.truth
    return {k: float(v) for k, v in dict(d).items()}


class _W(object):
    def __init__(self, synth):
        self.synth = synth


class C12(Check):
    cid = "C12"
    level = "exploration"
    technique = ("seeded simulation of operation histories; after every operation all earlier populations and all parameters of all "
                 "objects are compared with their model")
    rule = ("a run is one random synth and a random history of draws, failing draws, changes, rejected assignments, further synths "
            "and objects, saves, sub-populations and in-place changes of populations; every earlier population and every object's "
            "parameters are compared after every operation; non-trivial if a population with objects was followed by further "
            "operations; distinct by history")
    state_measure = "distinct (kinds of operations so far, populations held capped at 4, types of objects)"
    real = ["all of popsynth"]
    stub = ["simulated user samplers, selectors and distributions (sim/world.py)"]
    assumptions = ["the dictionaries popsynth hands out for its live objects (params) are not written to by the user"]
    quick_n = 800
    thorough_n = 30000

    def prepare(self):
        self.defaults = {}
        for t in tuple(world.SPATIAL_TYPES) + tuple(world.LUM_TYPES) + tuple(world.AUX_TYPES) + tuple(world.SIM_AUX) + ("SimDerived", "SimDerivedDist"):
            reg = world.distribution_registry if t in world.SPATIAL_TYPES + world.LUM_TYPES else world.auxiliary_parameter_registry
            self.defaults[t] = world.class_defaults(world.registered(reg, t))
        for t in SELECTIONS:
            self.defaults[t] = world.class_defaults(world.registered(world.selection_registry, t))

    def gen(self, rng, index, tier):
        spec = world.gen_spec(rng, target=rng.choice([3, 10]), sel_prob=rng.choice([0.2, 0.5]))
        m = history.Model()
        m.load("A", spec)
        hist = [["draw", "A", world.gen_draw(rng)]]
        for _ in range(rng.choice([4, 6, 9, 14])):
            r = rng.random()
            if r < 0.65:
                op = m.random_op(rng, 3)
                if m.apply(op):
                    hist.append(op)
                continue
            k = rng.choice(["reject", "reject", "reject", "bare", "bare", "scribble", "sub", "save", "rebuild", "twins", "twins", "stan", "display", "group"])
            if k == "reject":
                kind = rng.choice("dns")
                box = {"d": m.dists, "n": m.nodes, "s": m.sels}[kind]
                ids = [i for i in sorted(box) if BOUNDS.get(box[i]["type"])]
                if not ids:
                    continue
                i = rng.choice(ids)
                p = rng.choice(sorted(BOUNDS[box[i]["type"]]))
                low, high = BOUNDS[box[i]["type"]][p]
                v = rng.choice([low - 1e-9, low - 1.0, -1e300, NAN, "-inf"] + ([high + 1e-9, high + 1.0, 1e300, "inf"] if high is not None else []))
                hist.append([k, kind, i, p, v])
            elif k == "bare":
                t = rng.choice([x["type"] for x in list(m.dists.values()) + list(m.nodes.values()) + list(m.sels.values())])
                if t.startswith("SimDerived"):
                    p = world.gen_aux_params(rng, t)
                elif t in world.SPATIAL_TYPES:
                    p = world.gen_spatial(rng, (t,))["params"]
                elif t in world.LUM_TYPES:
                    p = world.gen_lum(rng, (t,))["params"]
                elif t in SELECTIONS:
                    p = m.sel_params(rng, t)
                else:
                    p = world.gen_aux_params(rng, t)
                hist.append([k, t, p])
            elif k == "scribble":
                hist.append([k, rng.randrange(9), rng.choice(["arrays", "truth", "description", "graph", "aux"])])
            elif k == "sub":
                hist.append([k, rng.randrange(9), rng.random() < 0.6, rng.random() < 0.5])
            elif k == "rebuild":
                hist.append([k, rng.randrange(9), world.gen_draw(rng)])
            elif k == "twins":
                hist.append([k, rng.randrange(9), rng.random() < 0.5, rng.randrange(1000), rng.random() < 0.5])
            else:
                hist.append([k, rng.randrange(9)])
        return {"spec": spec, "ops": hist}

    def run(self, sc, ctx):
        spec = world.resolve(sc["spec"], ctx)
        model = history.Model()
        model.load("A", spec)
        real = history.Real()
        real.load(model, "A", spec)
        pops = []          # [population, what it should be]
        bare = []          # [object, parameters]
        self.scribbled = set()
        self.kept = []
        kinds = []
        self.check_objects(model, real, bare, "building")
        for op in sc["ops"]:
            k = op[0]
            ctx.steps += 1
            if k in ("reject", "bare", "scribble", "sub", "save", "rebuild", "twins", "stan", "display", "group"):
                if not self.own(op, model, real, pops, bare, ctx):
                    continue
            else:
                if not model.apply(op):
                    continue
                if k == "draw":
                    pop = real.synths[op[1]].draw_survey(**op[2])
                    pops.append([pop, canon.fields(pop, with_graph_attrs=True), len(pops)])
                elif k == "fail":
                    if ops.fail_draw(_W(real.synths[op[1]]), op[2], op[3]):
                        ctx.fault("failing_draw")
                elif k == "peek":
                    s = real.synths[op[1]]
                    {"repr": lambda: repr(s), "graph": lambda: s.graph, "to_dict": s.to_dict}.get(op[2], lambda: None)()
                else:
                    real.apply(op, model)
            kinds.append(k)
            ctx.probe("op_" + k)
            what = f"after operation {len(kinds)} ({k})"
            for j, (pop, want, _) in enumerate(pops):
                got = canon.fields(pop, with_graph_attrs=True)
                d = canon.diff(want, got)
                if d:
                    raise Violation("population-changed", f"{what} population {j} changed in {d}: {canon.show(want, got, d)}")
            self.check_objects(model, real, bare, what)
            ctx.event(k, [canon.digest(w) for _, w, _ in pops])
            ctx.state(tuple(sorted(set(kinds))), min(4, len(pops)), sorted({x["type"] for x in model.nodes.values()})[:4])
        ctx.nontrivial = any(w["n_objects"] for _, w, _ in pops) and len(kinds) > 2
        ctx.sig = repr((world.shape(spec), kinds))
        ctx.samples = {"spatial": spec["spatial"]["type"], "history": kinds, "populations": len(pops)}

    def own(self, op, model, real, pops, bare, ctx):
        k = op[0]
        if k == "reject":
            box, objs = {"d": (model.dists, real.dists), "n": (model.nodes, real.nodes), "s": (model.sels, real.sels)}[op[1]]
            if op[2] not in box or op[2] not in objs:
                return False
            obj = objs[op[2]]
            value = float(op[4])
            try:
                setattr(obj, op[3], value)
            except Exception:
                ctx.fault("rejected_assignment")
                return True
            raise Violation("bound-not-enforced", f"{box[op[2]]['type']}.{op[3]} accepted {value}")
        if k == "bare":
            obj = new_object(op[1])
            bare.append([obj, op[1], {}])
            self.check_objects(model, real, bare, "creating a " + op[1])
            for p, v in op[2].items():
                setattr(obj, p, v)
            bare[-1][2] = dict(op[2])
            return True
        if not pops:
            return False
        pop, want, family = pops[op[1] % len(pops)]
        if k == "scribble":
            if op[2] == "arrays":
                for q in (pop.luminosities, pop.distances, pop.fluxes, pop.theta, pop.phi):
                    if len(q):
                        q += 1.0
                pop.known_distances[...] = 7.0
            elif op[2] == "truth":
                for v in pop.truth.values():
                    for p in v:
                        v[p] = -3.0
                pop.truth["more"] = {"x": 1.0}
            elif op[2] == "description":
                pop.pop_synth["seed"] = 99
                for v in pop.pop_synth["auxiliary samplers"].values():
                    v["observed"] = not v["observed"]
                self.scribbled.add(family)
            elif op[2] == "graph":
                pop.graph.add_edge("obs_flux", "scribbled")
            else:
                for n in canon.aux_names(pop.to_stan_data()):
                    q = getattr(pop, n)
                    if len(q) and np.asarray(q).dtype.kind == "f" and np.asarray(q.latent).dtype.kind == "f":
                        q += 1.0
            # only the population itself and those extracted from it may change
            for x in pops:
                if x[2] == family:
                    x[1] = canon.fields(x[0], with_graph_attrs=True)
        elif k == "sub":
            if len(pops) > 6:
                return False
            sub = pop.to_sub_population(observed=op[2])
            if op[3]:
                pops.append([sub, canon.fields(sub, with_graph_attrs=True), family])
        elif k in ("save", "group"):
            f = os.path.join(ctx.scratch, "p.h5")
            pop.writeto(f)
            if k == "group":
                pop.addto(f, "again")
            popsynth.Population.from_file(f)
            os.remove(f)
        elif k == "rebuild":
            # a description that was scribbled on need not make sense
            if family in self.scribbled:
                return False
            synth = popsynth.PopulationSynth.from_dict(pop.pop_synth)
            p = synth.spatial_distribution.truth
            for name in p:
                if name in ("Lambda", "r0", "rho"):
                    setattr(synth.spatial_distribution, name, 0.5 * p[name])
            synth.draw_survey(**dict(op[2], n_samples=5))
        elif k == "twins":
            if family in self.scribbled:
                return False
            self.twins(op, pop, bare, ctx)
        elif k == "stan":
            pop.to_stan_data()
        elif k == "display":
            repr(pop)
            repr(real.synths["A"]) if model.valid("A") else None
        return True

    def twins(self, op, pop, bare, ctx):
        """Synths built from one description are as separate as any others."""
        twins = []
        f = os.path.join(ctx.scratch, "twin.yml")
        for _ in range(2):
            if op[2]:
                twins.append(popsynth.PopulationSynth.from_dict(pop.pop_synth))
            else:
                if not twins:
                    popsynth.PopulationSynth.from_dict(copy.deepcopy(pop.pop_synth)).write_to(f)
                twins.append(popsynth.PopulationSynth.from_file(f))
        if not op[2]:
            os.remove(f)
        first, second = [self.parts(s) for s in twins]
        if sorted(first) != sorted(second):
            raise Violation("twins-differ", f"one description gave {sorted(first)} and {sorted(second)}")
        for label in first:
            if first[label] is second[label]:
                ctx.probe("shared_part")
        state = {label: (parameters(o), parameters(first[label])) for label, o in second.items()}
        for label, (a, b) in state.items():
            if a != b:
                raise Violation("twins-differ", f"{label} has {b} and {a}")
        # change one of them, keeping the declared bounds
        labels = [x for x in sorted(first) if state[x][0]]
        label = labels[op[3] % len(labels)]
        name = sorted(state[label][0])[(op[3] // 7) % len(state[label][0])]
        value = state[label][0][name] * 0.999
        setattr(first[label], name, value)
        if op[4]:
            twins[0].draw_survey(n_samples=4)
        for x, o in second.items():
            if parameters(o) != state[x][0]:
                raise Violation("parameters-changed", f"setting {label}.{name} of a synth changed {x} of a synth built from the same description: {state[x][0]} to {parameters(o)}")
        for x, o in first.items():
            want = dict(state[x][1])
            if x == label:
                want[name] = value
            if parameters(o) != want:
                raise Violation("parameters-changed", f"setting {label}.{name} gave {x} the parameters {parameters(o)} instead of {want}")
        self.kept += twins

    @staticmethod
    def parts(synth):
        out = {"spatial": synth.spatial_distribution}
        if synth.luminosity_distribution is not None:
            out["lum"] = synth.luminosity_distribution
        todo = list(history.held_samplers(synth).values())
        while todo:
            o = todo.pop()
            if "node:" + o.name not in out:
                out["node:" + o.name] = o
                todo += list(o.secondary_samplers.values())
        return out

    def check_objects(self, model, real, bare, what):
        todo = [(bare_t, obj, p, bare_t) for obj, bare_t, p in bare]
        for box, objs in ((model.dists, real.dists), (model.nodes, real.nodes), (model.sels, real.sels)):
            for i in sorted(box):
                if i in objs:
                    todo.append((box[i]["type"], objs[i], box[i]["params"], i))
        for t, obj, params, label in todo:
            want = dict(self.defaults[t])
            want.update({k: float(v) for k, v in params.items()})
            got = parameters(obj)
            if got != want:
                d = sorted(k for k in set(got) | set(want) if got.get(k) != want.get(k))
                raise Violation("parameters-changed", f"{what}: {t} {label}: {d}: {[(got.get(k), want.get(k)) for k in d]}")
            for k, v in want.items():
                if float(getattr(obj, k)) != v:
                    raise Violation("parameters-changed", f"{what}: {t} {label}.{k} reads {getattr(obj, k)}, not {v}")

    def shrink(self, sc):
        for l in world.shrink_list(sc["ops"]):
            yield dict(sc, ops=l)
        for s in world.shrink_spec(sc["spec"]):
            yield dict(sc, spec=s)


CHECK = C12
