"""C20: a description written by hand, or a ready-made population, builds the synth it describes."""
import builtins
import copy
import io
import os
import random

import numpy as np
import yaml

import canon
import history
import ops
import popsynth
import world
from engine import Check, Violation
from props.c09 import _W, index_parts, strip

NO_NAME = ("ViewingAngleSampler",)


class SimInit(popsynth.AuxiliarySampler):
    """A sampler with settings that are not parameters."""

    _auxiliary_sampler_name = "SimInit"
    mu = popsynth.auxiliary_sampler.AuxiliaryParameter(default=0.0)
    sigma = popsynth.auxiliary_sampler.AuxiliaryParameter(default=0.5, vmin=0)

    def __init__(self, name, observed=True, power=1, offset=0.0):
        super(SimInit, self).__init__(name=name, observed=observed)
        self._power, self._offset = power, offset

    def true_sampler(self, size):
        x = np.random.normal(self.mu, 1, size=size) * self._power + self._offset
        for s in self._secondary_samplers.values():
            x = x + 0.1 * s.true_values
        self._true_values = x

    def observation_sampler(self, size):
        self._obs_values = self._true_values if not self._is_observed else self._true_values + np.random.normal(0, self.sigma, size=size)


OWN = {"SimInit": SimInit}

# ------------------------------------------------------- the synth meant


def build(spec):
    """The synth of a specification, from the classes."""
    return world.build(spec, own_samplers(spec))


def own_samplers(spec):
    own = {n: a for n, a in spec["aux"].items() if a["type"] in OWN}
    shared = {}
    for n, a in own.items():
        kw = dict(a.get("init", {}), observed=a["observed"])
        if a["type"] == "SimInit":
            kw["name"] = n
        x = shared["node:" + n] = OWN[a["type"]](**kw)
        for k, v in a["params"].items():
            setattr(x, k, v)
    return shared


def fresh(spec, args):
    w = build(spec)
    return canon.object_fields(canon.fields(world.draw(w, args))), canon.description(w.synth.to_dict())


# ------------------------------------------------- ready-made populations

SPATIAL_ARGS = {"ConstantSphericalDistribution": ["Lambda"], "ZPowerSphericalDistribution": ["Lambda", "delta"],
                "ZPowerCosmoDistribution": ["Lambda", "delta"], "SFRDistribution": ["r0", "a", "rise", "decay", "peak"],
                "SpiralGalaxyDistribution": ["rho", "a", "b", "R1", "R0"]}
LUM_ARGS = {"ParetoDistribution": ["Lmin", "alpha"], "BPLDistribution": ["Lmin", "alpha", "Lbreak", "beta", "Lmax"],
            "LogNormalDistribution": ["mu", "tau"], "Log10NormalDistribution": ["mu", "tau"], "SchechterDistribution": ["Lmin", "alpha"]}


def ready_defaults(spec):
    if spec["spatial"]["type"] == "SpiralGalaxyDistribution":
        return {"a": 1.64, "b": 4.01, "R1": 0.55, "R0": 8.5, "r_max": 20, "seed": 1234}
    schechter = spec["lum"] is not None and spec["lum"]["type"] == "SchechterDistribution"
    return {"r_max": 10 if schechter else 5, "seed": 1234, "is_rate": True}


def ready(spec, rng):
    """(class, positional arguments, keyword arguments) of the ready-made population"""
    t, lum = spec["spatial"]["type"], spec["lum"]
    order = [(k, spec["spatial"]["params"][k]) for k in SPATIAL_ARGS[t]]
    own = lum is not None and lum["type"] in LUM_ARGS and t != "SpiralGalaxyDistribution"
    if own:
        order += [(k, lum["params"][k]) for k in LUM_ARGS[lum["type"]]]
    order += [("r_max", spec["spatial"]["params"]["r_max"]), ("seed", spec["seed"])]
    if not own:
        order.append(("luminosity_distribution", None if lum is None else world.build_distribution(lum)))
    if t in world.COSMO:
        order.append(("is_rate", spec["spatial"].get("is_rate", True)))
    have = dict(ready_defaults(spec), luminosity_distribution=None)
    skip = {k for k, v in order if k in have and (v is have[k] or v == have[k] and v is not None) and rng.random() < 0.8}
    first = next((i for i, (k, v) in enumerate(order) if k in skip), len(order))
    n = rng.choice([0, rng.randrange(first + 1), first])
    rest = [x for x in order[n:] if x[0] not in skip]
    rng.shuffle(rest)
    return world.builtin_class(spec), [v for k, v in order[:n]], dict(rest)


# --------------------------------------------------- writing it by hand


class Hand:
    """Somebody's way of writing things down."""

    def __init__(self, seed):
        self.rng = random.Random(seed)
        self.indent = self.rng.choice([2, 4, 4, 3])
        self.shared = {}

    def number(self, v):
        """(what is written, what it stands for in a dictionary)"""
        r = self.rng.random()
        if float(v) == int(v) and abs(v) < 1e6 and r < 0.6:
            return int(v)
        if r < 0.75:
            return float(v)
        if r < 0.9:
            # PyYAML takes numbers like 1e51 for text
            s = "%.17e" % v
            m, e = s.split("e")
            m = m.rstrip("0").rstrip(".")
            t = f"{m}e{int(e)}"
            return t if float(t) == float(v) else float(v)
        return repr(float(v))

    def params(self, d):
        l = [(k, self.number(v)) for k, v in d.items()]
        self.rng.shuffle(l)
        if not l:
            return self.rng.choice([None, {}])
        return dict(l)

    def selection(self, s, where):
        d = dict(self.params(s["params"]) or {})
        if where == "aux" and s.get("use") in ("dist", "lum"):
            d["use_distance" if s["use"] == "dist" else "use_luminosity"] = True
        if where == "aux" and s.get("use") == "obs" and self.rng.random() < 0.2:
            d["use_obs_value"] = True
        return {s["type"]: d or self.rng.choice([None, {}])}

    def maybe(self, d, key, value):
        """An entry that may be left out, or left empty, where there is nothing to say."""
        if value is not None:
            d[key] = value
        elif self.rng.random() < 0.5:
            d[key] = None

    def sampler(self, a):
        d = {"type": a["type"], "observed": a["observed"]}
        d.update(self.params(a["params"]) or {})
        self.maybe(d, "selection", None if not a["sel"] else self.selection(a["sel"], "aux"))
        s = list(a["secondary"])
        if not s:
            r = self.rng.random()
            if r < 0.5:
                d["secondary"] = self.rng.choice([None, [], {}])
        else:
            r = self.rng.random()
            if len(s) == 1 and r < 0.4:
                d["secondary"] = s[0]
            elif r < 0.8:
                d["secondary"] = s
            else:
                d["secondary"] = {n: None for n in s}
        i = {k: v for k, v in a.get("init", {}).items()}
        self.maybe(d, "init variables", i or None)
        l = list(d.items())
        self.rng.shuffle(l)
        d = dict(l)
        # written once and referred to from then on
        key = repr(sorted(d.items(), key=repr))
        if self.rng.random() < 0.7:
            d = self.shared.setdefault(key, d)
        return d

    def write(self, spec):
        out = {"seed": spec["seed"]}
        if spec["lum"] is not None:
            out["luminosity distribution"] = {spec["lum"]["type"]: self.params(spec["lum"]["params"])}
        sp = {spec["spatial"]["type"]: self.params(spec["spatial"]["params"])}
        if spec["spatial"]["type"] in world.COSMO:
            rate = spec["spatial"].get("is_rate", True)
            if not rate or self.rng.random() < 0.5:
                sp["is_rate"] = rate
        out["spatial distribution"] = sp
        for key, where in (("flux_sel", "flux selection"), ("dist_sel", "distance selection"), ("spat_sel", "spatial selection")):
            self.maybe(out, where, None if not spec[key] else self.selection(spec[key], key))
        aux = {}
        # roots are drawn in the order they are written in; the others may be anywhere
        order = list(spec["roots"])
        for n in spec["aux"]:
            if n not in order:
                order.insert(self.rng.randrange(len(order) + 1), n)
        for n in order:
            aux[n] = self.sampler(spec["aux"][n])
        self.maybe(out, "auxiliary samplers", aux or None)
        l = list(out.items())
        self.rng.shuffle(l)
        return dict(l)

    # ---- as text

    def text(self, d):
        names = {}
        count = {}

        def visit(x):
            if isinstance(x, dict) and x:
                count[id(x)] = count.get(id(x), 0) + 1
                if count[id(x)] == 1:
                    for v in x.values():
                        visit(v)
        visit(d)

        def scalar(x):
            if x is None:
                return self.rng.choice(["", "", "~", "null"])
            if isinstance(x, bool):
                return self.rng.choice(["True", "true", "yes", "on"] if x else ["False", "false", "no", "off"])
            if isinstance(x, str):
                return self.rng.choice([x, x, f"'{x}'", f'"{x}"'])
            if isinstance(x, float):
                return self.rng.choice([repr(x), "%.17g" % x, "%r  # %s" % (x, "number")])
            return repr(x)

        def flow(x):
            if isinstance(x, dict):
                return "{" + ", ".join(f"{k}: {flow(v)}" for k, v in x.items()) + "}"
            if isinstance(x, list):
                return "[" + ", ".join(map(flow, x)) + "]"
            s = scalar(x).split("  #")[0]
            return s or "null"

        def block(x, depth):
            pad = " " * (self.indent * depth)
            out = []
            for k, v in x.items():
                if self.rng.random() < 0.1:
                    out.append(self.rng.choice(["", pad + "# a remark: with a colon"]))
                if isinstance(v, dict) and id(v) in names:
                    out.append(f"{pad}{k}: *{names[id(v)]}")
                    continue
                mark = ""
                if isinstance(v, dict) and count.get(id(v), 0) > 1:
                    names[id(v)] = f"a{len(names)}"
                    mark = " &" + names[id(v)]
                if isinstance(v, dict) and v and (mark or self.rng.random() < 0.85 or any(count.get(id(y), 0) > 1 for y in v.values())):
                    out.append(f"{pad}{k}:{mark}")
                    out += block(v, depth + 1)
                elif isinstance(v, list) and v and self.rng.random() < 0.5:
                    out.append(f"{pad}{k}:")
                    out += [f"{pad}{' ' * self.indent}- {scalar(y)}" for y in v]
                elif isinstance(v, (dict, list)):
                    out.append(f"{pad}{k}: {flow(v)}")
                else:
                    out.append(f"{pad}{k}: {scalar(v)}".rstrip())
            return out

        lines = block(d, 0)
        if self.rng.random() < 0.3:
            lines.insert(0, "---")
        return "\n".join(lines) + self.rng.choice(["\n", "", "\n\n"])


class C20(Check):
    cid = "C20"
    level = "exploration"
    technique = ("seeded simulation: descriptions written by a simulated user, read under injected read faults, and used in random histories; "
                 "every draw of the synth built is compared with one built from the classes")
    rule = ("a run is one random synth, written down by hand in a random style (as a YAML file or a dictionary), read with up to one "
            "read fault, and a random history of draws, failing draws and changes; non-trivial if a draw with objects was compared; "
            "distinct by configuration shape, style and history")
    state_measure = "distinct (configuration shape, how it was given)"
    real = ["popsynth's building from descriptions and drawing code", "PyYAML", "numpy generators"]
    stub = ["simulated user samplers, selectors and distributions (sim/world.py, samplers with settings here)", "reading of the file"]
    assumptions = ["what may be left out or left empty is what the documented example leaves out or empty, parameters with a default, and "
                   "sections with nothing in them"]
    quick_n = 1200
    thorough_n = 50000

    def gen(self, rng, index, tier):
        ready_made = index % 3 == 2
        types = {}
        if ready_made:
            # every combination in turn
            k = index // 3
            t = list(SPATIAL_ARGS)[k % 5]
            types = {"spatial_types": (t,), "lum_types": (world.LUM_TYPES if k // 5 % 6 == 5 else (list(LUM_ARGS)[k // 5 % 6],))}
        spec = world.gen_spec(rng, target=rng.choice([3, 8, 15]), builtin_prob=0, share_prob=0, **types)
        spec = strip(spec)
        # some samplers with settings
        for n, a in spec["aux"].items():
            if a["type"] in ("SimNode", "NormalAuxSampler") and rng.random() < 0.3:
                a["type"] = "SimInit"
                a["params"] = {k: world.uni(rng, 0.1, 3) for k in ("mu", "sigma") if rng.random() < 0.6}
                a["init"] = {k: v for k, v in (("power", rng.choice([1, 2, 3])), ("offset", world.uni(rng, 0, 5))) if rng.random() < 0.6}
        # equal samplers, which one writes only once
        if len(spec["roots"]) > 1 and rng.random() < 0.3:
            a, b = rng.sample(spec["roots"], 2)
            x, y = spec["aux"][a], spec["aux"][b]
            if spec["derived"] not in (a, b) and x["type"] not in NO_NAME and y["type"] not in NO_NAME and not x["secondary"] and not y["secondary"]:
                spec["aux"][b] = copy.deepcopy(x)
                if x["sel"] and any(isinstance(v, dict) for v in x["sel"]["params"].values()):
                    x["sel"]["share"] = spec["aux"][b]["sel"]["share"] = "eq"
        # parameters left to their defaults
        lum = spec["lum"] if spec["lum"] is not None and spec["lum"]["type"] != "DeltaDistribution" else None
        for d in [spec["spatial"]] + ([lum] if lum else []):
            cls = world.registered(world.distribution_registry, d["type"])
            have = world.class_defaults(cls)
            for k in list(d["params"]):
                if k in have and k not in ("r_max", world.NORM.get(d["type"])) and rng.random() < 0.2:
                    del d["params"][k]
        if lum is not None:
            have = world.class_defaults(world.registered(world.distribution_registry, spec["lum"]["type"]))
            if set(spec["lum"]["params"]) <= set(have) and rng.random() < 0.2:
                spec["lum"]["params"] = {}
        if ready_made:
            # whatever has no default is given
            for d, keys in ((spec["spatial"], SPATIAL_ARGS[spec["spatial"]["type"]]), (spec["lum"], LUM_ARGS.get(spec["lum"] and spec["lum"]["type"]))):
                if keys:
                    for k, v in world.class_defaults(world.registered(world.distribution_registry, d["type"])).items():
                        if k in keys:
                            d["params"].setdefault(k, v)
            usual = ready_defaults(spec)
            if rng.random() < 0.5:
                spec["seed"] = 1234
            for k in spec["spatial"]["params"]:
                if k in usual and rng.random() < 0.5:
                    spec["spatial"]["params"][k] = usual[k]
            k = world.NORM[spec["spatial"]["type"]]
            spec["spatial"]["params"][k] = world.r3(rng.choice([3, 8, 15]) / max(world.unit_integral(spec["spatial"]), 1e-12))
        m = history.Model()
        m.load("A", spec)
        hist = []
        for _ in range(rng.choice([0, 0, 1, 3, 6])):
            op = m.random_op(rng, 2)
            if op[0] not in ("synth", "clone", "clean") and m.apply(op):
                hist.append(op)
        hist.append(["draw", "A", world.gen_draw(rng)])
        how = rng.choice(["file", "file", "file", "dict", "text"])
        if ready_made:
            how = "ready"
        return {"spec": spec, "style": rng.getrandbits(30), "how": how,
                "fault": rng.choice([None, None, None, "open", "read", "late"]), "again": rng.random() < 0.3, "ops": hist,
                "first": world.gen_draw(rng)}

    def run(self, sc, ctx):
        canon.INT_AS_FLOAT = True
        spec = ctx.fork(self.resolved, sc["spec"], ctx)
        hand = Hand(sc["style"])
        d = hand.write(spec)
        text = hand.text(d)
        if sc["how"] == "ready":
            cls, pos, kw = ready(spec, hand.rng)
            text = f"{cls.__name__}({pos}, {kw}) with {d}"
        elif sc["how"] != "dict":
            back = yaml.safe_load(text)
            if self.norm(back) != self.norm(d):
                raise AssertionError(f"harness: the text does not say what was meant: {back} != {d}\n{text}")
        ctx.event(text)
        # what is meant, without the settings of samplers, in the model
        model = history.Model()
        model.load("A", spec)
        init = {n: a.get("init") for n, a in spec["aux"].items()}

        def meant(args):
            s = model.spec("A")
            for n, a in s["aux"].items():
                if init.get(n) is not None:
                    a["init"] = init[n]
            return ctx.fork(fresh, strip(s), args)

        want, described = meant(sc["first"])
        before = copy.deepcopy(d)
        if sc["how"] == "ready":
            w = world.World()
            w.synth = cls(*pos, **kw)
            w.spatial, w.lum = w.synth.spatial_distribution, w.synth.luminosity_distribution
            world.attach(w, spec, own_samplers(spec))
            synth = w.synth
            ctx.probe("ready_made")
        else:
            synth = self.read(sc, ctx, d, text)
        if repr(before) != repr(d):
            raise Violation("description-modified", f"building changed the description: {before} != {d}")
        if sc["again"] and sc["how"] != "ready":
            self.read(dict(sc, fault=None), ctx, d, text)
        got = canon.description(synth.to_dict())
        if got != described:
            raise Violation("description-differs", f"the synth built from\n{text}\nis described as {got} instead of {described}")
        self.same(want, canon.object_fields(canon.fields(synth.draw_survey(**sc["first"]))), text, sc["first"])
        drawn = want["n_objects"]
        real = index_parts(synth, model, "A")
        kinds = []
        for op in sc["ops"]:
            if not model.apply(op):
                continue
            ctx.steps += 1
            kinds.append(op[0])
            if op[0] == "draw":
                want, _ = meant(op[2])
                got = canon.object_fields(canon.fields(synth.draw_survey(**op[2])))
                ctx.event(canon.digest(want))
                drawn += want["n_objects"]
                self.same(want, got, text, op[2])
            elif op[0] == "fail":
                if ops.fail_draw(_W(synth), op[2], op[3]):
                    ctx.fault("failing_draw")
            elif op[0] == "peek":
                repr(synth) if op[2] == "repr" else synth.to_dict()
            else:
                real.apply(op, model)
        ctx.nontrivial = drawn > 0
        ctx.state(world.shape(spec), sc["how"], bool(hand.shared))
        ctx.sig = repr((world.shape(spec), sc["style"], kinds))
        ctx.samples = {"text": text[:1500], "how": sc["how"], "fault": sc["fault"], "history": kinds}

    @staticmethod
    def resolved(spec, ctx):
        """Boundaries from a pilot survey of the synth meant."""
        if not world.unresolved(spec):
            return spec
        plain = copy.deepcopy(spec)
        for a in plain["aux"].values():
            if a["type"] in OWN:
                a.update(type="SimNode", params={})
        done = world.resolve(plain, ctx)
        out = copy.deepcopy(spec)
        for k in ("flux_sel", "dist_sel", "spat_sel"):
            out[k] = done[k]
        for n in out["aux"]:
            out["aux"][n]["sel"] = done["aux"][n]["sel"]
            if out["aux"][n]["sel"]:
                out["aux"][n]["sel"].pop("share", None)
        return out

    @staticmethod
    def norm(x):
        if isinstance(x, dict):
            return {k: C20.norm(v) for k, v in x.items()}
        if isinstance(x, list):
            return [C20.norm(v) for v in x]
        if isinstance(x, bool) or x is None:
            return x
        try:
            return float(x)
        except (TypeError, ValueError):
            return x

    def read(self, sc, ctx, d, text):
        if sc["how"] == "dict":
            return popsynth.PopulationSynth.from_dict(d)
        if sc["how"] == "text":
            return popsynth.PopulationSynth.from_dict(yaml.safe_load(text))
        f = os.path.join(ctx.scratch, "pop.yml")
        with open(f, "w") as g:
            g.write(text)
        if sc["fault"]:
            real = builtins.open

            class Broken(io.StringIO):
                count = 0

                def read(self, n=-1):
                    self.count += 1
                    if sc["fault"] == "read" or self.count > 1:
                        raise OSError(5, "Input/output error")
                    return io.StringIO.read(self, max(1, len(text) // 2))

            hit = []

            def failing(name, *a, **kw):
                if str(name) != f:
                    return real(name, *a, **kw)
                hit.append(name)
                ctx.fault("read_error_" + sc["fault"])
                if sc["fault"] == "open":
                    raise OSError(5, "Input/output error")
                return Broken(text)

            builtins.open = failing
            try:
                popsynth.PopulationSynth.from_file(f)
                if hit:
                    raise Violation("read-error-swallowed", f"a synth was built from a file that cannot be read ({sc['fault']})")
            except OSError:
                pass
            finally:
                builtins.open = real
        return popsynth.PopulationSynth.from_file(f)

    def same(self, want, got, text, args):
        d = canon.diff(want, got)
        if d:
            raise Violation("built-synth-differs", f"the synth built from\n{text}\ndraws another survey for {args} than the one built from the "
                            f"classes: fields {d}: {canon.show(want, got, d)}")

    def shrink(self, sc):
        if sc["fault"]:
            yield dict(sc, fault=None)
        if sc["again"]:
            yield dict(sc, again=False)
        if sc["how"] not in ("dict", "ready"):
            yield dict(sc, how="dict")
        for l in world.shrink_list(sc["ops"]):
            yield dict(sc, ops=l)
        for s in world.shrink_spec(sc["spec"]):
            yield dict(sc, spec=s)
        for s in range(4):
            if sc["style"] != s:
                yield dict(sc, style=s)


CHECK = C20
