"""C09: a synth's description rebuilds a synth that draws the same survey."""
import copy
import json
import os

import yaml

import canon
import history
import ops
import popsynth
import world
from engine import Check, Violation

HOW = ("dict", "dict", "yaml", "yaml", "hdf5", "group", "sub", "json", "yaml_text", "memory")


def fresh(spec, args):
    w = world.build(spec)
    pop = world.draw(w, args)
    return canon.object_fields(canon.fields(pop)), canon.description(w.synth.to_dict())


def strip(spec):
    """The specification of what a conversion yields: nothing is shared, and
    the synth is not of a special class any more."""
    out = copy.deepcopy(spec)
    out["route"] = "synth"
    out["spaces"] = []
    for s in [out.get(k) for k in ("flux_sel", "dist_sel", "spat_sel")] + [a["sel"] for a in out["aux"].values()]:
        if s:
            s.pop("share", None)
    return out


def converted(model, name):
    m = history.Model()
    m.load(name, strip(model.spec(name)))
    m.counter = model.counter + 1000
    return m


class _W(object):
    def __init__(self, synth):
        self.synth = synth


def index_parts(synth, model, name):
    """The parts of a rebuilt synth under the identifiers of the model."""
    real = history.Real()
    real.synths[name] = synth
    s = model.synths[name]
    real.dists[s["spatial"]] = synth.spatial_distribution
    if s["lum"]:
        real.dists[s["lum"]] = synth.luminosity_distribution
    for slot in ("flux_sel", "dist_sel", "spat_sel"):
        if s[slot]:
            real.sels[s[slot]] = history.held_selector(synth, slot)
    held = history.held_samplers(synth)

    def walk(ident, sampler):
        real.nodes[ident] = sampler
        if model.nodes[ident]["sel"]:
            real.sels[model.nodes[ident]["sel"]] = sampler.selector
        for n, i in model.nodes[ident]["secondary"].items():
            walk(i, sampler.secondary_samplers[n])

    for r in s["roots"]:
        walk(r, held[model.nodes[r]["name"]])
    if s["derived"]:
        walk(s["derived"], held[model.nodes[s["derived"]]["name"]])
    return real


class C09(Check):
    cid = "C09"
    level = "exploration"
    technique = ("seeded simulation of configuration histories followed by chains of conversions (dictionary, YAML, HDF5) and "
                 "further changes, every rebuilt synth compared with a newly built one")
    rule = ("a run is one random synth with a random history of changes, draws and failing draws, then a chain of conversions "
            "of its description, each followed by draws and possibly further changes; non-trivial if a rebuilt synth drew "
            "objects; distinct by configuration shape, history and chain")
    state_measure = "distinct (configuration shape, conversions so far)"
    real = ["all of popsynth's conversion, storage and drawing code", "PyYAML", "h5py on files in a scratch directory"]
    stub = ["simulated user samplers, selectors and distributions (sim/world.py)"]
    assumptions = ["custom names of distributions and model spaces are not part of a description",
                   "descriptions compare up to how lists of secondaries are stored"]
    quick_n = 700
    thorough_n = 30000

    def gen(self, rng, index, tier):
        spec, hist, names = history.gen(rng, rng.choice([0, 0, 2, 4, 8, 14]), draws=2, target=rng.choice([3, 10, 20]))
        m = history.Model()
        m.load("A", spec)
        for op in hist:
            m.apply(op)
        ok = [n for n in names if m.valid(n)]
        name = rng.choice(ok or names)
        chain = []
        for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
            link = {"how": rng.choice(HOW), "args": [world.gen_draw(rng) for _ in range(rng.choice([1, 1, 2]))],
                    "reuse": rng.random() < 0.4, "spoil": rng.random() < 0.4, "old": rng.random() < 0.5,
                    "numpy": rng.random() < 0.3, "via": world.gen_draw(rng), "ops": []}
            if m.valid(name):
                m = converted(m, name)
                if rng.random() < 0.5:
                    for _ in range(rng.choice([1, 2, 4])):
                        op = m.random_op(rng, 1)
                        if op[0] in ("synth", "clone", "clean"):
                            continue
                        if m.apply(op):
                            link["ops"].append(op)
            chain.append(link)
        return {"spec": spec, "ops": hist, "name": name, "chain": chain}

    # ---- conversions: each returns the description and the rebuilt synth

    def convert(self, synth, link, ctx, n):
        how = link["how"]
        if how in ("dict", "json", "memory", "yaml_text"):
            if how == "memory":
                # the description held by a population
                d = synth.draw_survey(**link["via"]).pop_synth
            else:
                d = synth.to_dict()
            if how == "json":
                d = json.loads(json.dumps(d))
            if how == "yaml_text":
                d = yaml.safe_load(yaml.safe_dump(d, sort_keys=False, default_flow_style=None))
            return d, popsynth.PopulationSynth.from_dict(d)
        f = os.path.join(ctx.scratch, f"c{n}")
        if how == "yaml":
            synth.write_to(f)
            with open(f) as g:
                d = yaml.safe_load(g)
            return d, popsynth.PopulationSynth.from_file(f)
        pop = synth.draw_survey(**link["via"])
        if how == "sub":
            pop = pop.to_sub_population(observed=pop.n_detections > 0)
        if how == "group":
            import h5py
            with h5py.File(f, "w"):
                pass
            pop.addto(f, "g")
            pop = popsynth.Population.from_group(f, "g")
        else:
            pop.writeto(f)
            pop = popsynth.Population.from_file(f)
        d = pop.pop_synth
        return d, popsynth.PopulationSynth.from_dict(d)

    def apply(self, real, model, op, ctx):
        if op[0] == "draw":
            real.synths[op[1]].draw_survey(**op[2])
        elif op[0] == "fail":
            if ops.fail_draw(_W(real.synths[op[1]]), op[2], op[3]):
                ctx.fault("failing_draw")
        elif op[0] == "peek":
            s = real.synths[op[1]]
            repr(s) if op[2] == "repr" else s.to_dict()
        else:
            real.apply(op, model)

    @staticmethod
    def numpy_values(real, model):
        """Give every parameter its value as a numpy scalar."""
        import numpy as np
        for box, objs in ((model.dists, real.dists), (model.nodes, real.nodes), (model.sels, real.sels)):
            for i in sorted(box):
                for k, v in box[i]["params"].items():
                    if isinstance(v, float) and i in objs:
                        setattr(objs[i], k, np.float64(v))

    def run(self, sc, ctx):
        # a description holds parameters as floats
        canon.INT_AS_FLOAT = True
        spec = world.resolve(sc["spec"], ctx)
        model = history.Model()
        model.load("A", spec)
        real = history.Real()
        real.load(model, "A", spec)
        for op in sc["ops"]:
            if model.apply(op):
                ctx.steps += 1
                self.apply(real, model, op, ctx)
        name = sc["name"]
        drawn = 0
        done = []
        for n, link in enumerate(sc["chain"]):
            if name not in model.synths or not model.valid(name):
                ctx.probe("not_drawable")
                break
            ctx.steps += 1
            how = link["how"]
            ctx.probe("how_" + how)
            old = real.synths[name]
            if link["numpy"]:
                self.numpy_values(real, model)
            # what the current configuration draws and says
            current = model.spec(name)
            want = [ctx.fork(fresh, current, a) for a in link["args"]]
            described = want[0][1]
            if how not in ("hdf5", "group", "sub", "memory"):
                self.same_description(described, old.to_dict(), f"link {n}: the description of the synth is not that of its configuration")
            d, synth = self.convert(old, link, ctx, n)
            before = copy.deepcopy(d)
            self.same_description(described, d, f"link {n} ({how}): the stored description is not that of the configuration")
            self.same_description(described, synth.to_dict(), f"link {n} ({how}): the rebuilt synth is not described as the original")
            for a, (w, _) in zip(link["args"], want):
                got = canon.object_fields(canon.fields(synth.draw_survey(**a)))
                ctx.event(how, canon.digest(w), canon.digest(got))
                if w["n_objects"]:
                    drawn += 1
                self.same(w, got, f"link {n} ({how}): the rebuilt synth draws another survey for {a}")
            self.untouched(before, d, f"link {n} ({how}): building changed the description")
            if link["old"]:
                got = canon.object_fields(canon.fields(old.draw_survey(**link["args"][0])))
                self.same(want[0][0], got, f"link {n} ({how}): converting changed the synth")
            if link["spoil"] and how == "dict":
                self.spoil(d)
                self.same_description(described, old.to_dict(), f"link {n}: changing the returned description changed the synth")
                self.same_description(described, synth.to_dict(), f"link {n}: changing the description changed the synth built from it")
                d = copy.deepcopy(before)
            model = converted(model, name)
            real = index_parts(synth, model, name)
            for op in link["ops"]:
                if model.apply(op):
                    ctx.steps += 1
                    self.apply(real, model, op, ctx)
                    ctx.probe("changed_after_rebuild")
            if link["reuse"]:
                self.untouched(before, d, f"link {n} ({how}): using the rebuilt synth changed the description")
                other = popsynth.PopulationSynth.from_dict(d)
                got = canon.object_fields(canon.fields(other.draw_survey(**link["args"][0])))
                self.same(want[0][0], got, f"link {n} ({how}): the second synth built from the description differs")
                self.untouched(before, d, f"link {n} ({how}): building again changed the description")
                if link["ops"] and model.valid(name):
                    # and the two synths do not share anything
                    w = ctx.fork(fresh, model.spec(name), link["args"][0])[0]
                    self.same(w, canon.object_fields(canon.fields(real.synths[name].draw_survey(**link["args"][0]))),
                              f"link {n} ({how}): building a second synth changed the first")
            done.append(how)
            ctx.state(world.shape(current), tuple(done))
        ctx.nontrivial = drawn > 0
        ctx.sig = repr((world.shape(spec), [o[0] for o in sc["ops"]], done, [[o[0] for o in l["ops"]] for l in sc["chain"]]))
        ctx.samples = {"spatial": spec["spatial"]["type"], "chain": done, "draws_compared": drawn}

    def same(self, want, got, what):
        d = canon.diff(want, got)
        if d:
            raise Violation("rebuilt-synth-differs", f"{what}: fields {d}: {canon.show(want, got, d)}")

    def same_description(self, want, got, what):
        got = canon.description(got)
        if want != got:
            raise Violation("description-differs", f"{what}: {want} != {got}")

    def untouched(self, before, d, what):
        if before != d:
            raise Violation("description-modified", f"{what}: {before} != {d}")

    @staticmethod
    def spoil(d):
        for k in list(d):
            v = d[k]
            if isinstance(v, dict):
                C09.spoil(v)
            elif isinstance(v, list):
                del v[:]
            elif isinstance(v, bool):
                d[k] = not v
            elif isinstance(v, (int, float)):
                d[k] = v + 7
        d.pop(next(iter(d), None), None)

    def shrink(self, sc):
        for l in world.shrink_list(sc["ops"]):
            yield dict(sc, ops=l)
        for l in world.shrink_list(sc["chain"]):
            if l:
                yield dict(sc, chain=l)
        for i, link in enumerate(sc["chain"]):
            def with_(**kw):
                return dict(sc, chain=sc["chain"][:i] + [dict(link, **kw)] + sc["chain"][i + 1:])
            for l in world.shrink_list(link["ops"]):
                yield with_(ops=l)
            for k in ("reuse", "spoil", "old", "numpy"):
                if link[k]:
                    yield with_(**{k: False})
            if len(link["args"]) > 1:
                yield with_(args=link["args"][:1])
            if link["how"] != "dict":
                yield with_(how="dict")
            for k in list(link["args"][0]):
                a = dict(link["args"][0])
                a.pop(k)
                yield with_(args=[a] + link["args"][1:])
        for s in world.shrink_spec(sc["spec"]):
            yield dict(sc, spec=s)


CHECK = C09
