"""C19: synths and populations say which model they came from."""
import os

import numpy as np

import canon
import history
import ops
import popsynth
import world
from engine import Check, Violation
from props.c13 import expected_truth

USES_DIST = ("SimDistNode", "SimAllNode", "SimDerivedDist")
USES_SKY = ("SimSkyNode", "SimAllNode")


class _W(object):
    def __init__(self, synth):
        self.synth = synth


def graph_of(g):
    if not g.is_directed():
        raise Violation("graph-not-directed", "the graph has no directions")
    return set(map(str, g.nodes)), {(str(a), str(b)) for a, b in g.edges}


def numbers(d):
    return None if d is None else {str(k): float(np.asarray(v).ravel()[0]) for k, v in dict(d).items()}


class C19(Check):
    cid = "C19"
    level = "exploration"
    technique = ("seeded simulation of histories over synths sharing parts; the graph, truth, parameters, forms and grids of every synth "
                 "and of every population, drawn, reloaded or extracted, are checked against a model of what is attached")
    rule = ("a run is one random synth with a graph of samplers and a random history of draws, failing draws and changes; every drawn "
            "population is checked at once, again after it was saved and loaded and again at the end; non-trivial if at least three "
            "models were checked; distinct by history")
    state_measure = "distinct (graph edges with sampler types and observed flags) checked"
    real = ["popsynth's graph, truth and parameter recording, saving and loading", "numpy generators", "a real file system"]
    stub = ["simulated user samplers, selectors and distributions (sim/world.py)"]
    assumptions = ["a graph may also show what a sampler depends on besides distances (luminosities, sky positions)"]
    quick_n = 1500
    thorough_n = 60000

    def gen(self, rng, index, tier):
        spec, hist, names = history.gen(
            rng, rng.choice([0, 2, 4, 8, 14]), draws=3, target=rng.choice([3, 8]), max_nodes=rng.choice([3, 5, 8, 10]),
            derived_prob=0.4, sel_prob=0.15, builtin_prob=0.2)
        for n in names:
            hist.append(["draw", n, world.gen_draw(rng)])
        return {"spec": spec, "ops": hist, "save": rng.choice(["none", "file", "file", "group", "extract"])}

    def run(self, sc, ctx):
        spec = world.resolve(sc["spec"], ctx)
        model = history.Model()
        model.load("A", spec)
        real = history.Real()
        real.load(model, "A", spec)
        kinds = []
        kept = []
        checked = 0
        for op in sc["ops"]:
            if not model.apply(op):
                continue
            ctx.steps += 1
            kinds.append(op[0])
            if op[0] == "draw":
                want = self.expected(model, real, op[1])
                # errors only count together with a flux selection
                sel = model.synths[op[1]]["flux_sel"]
                want["flux_sigma"] = op[2].get("flux_sigma") if sel and model.sels[sel]["type"] != "UnitySelection" else None
                pop = real.synths[op[1]].draw_survey(**op[2])
                self.verify_population(want, pop, "drawn", ctx)
                kept.append((want, pop))
                checked += 1
            elif op[0] == "fail":
                if ops.fail_draw(_W(real.synths[op[1]]), op[2], op[3]):
                    ctx.fault("failing_draw")
            elif op[0] == "peek":
                s = real.synths[op[1]]
                {"repr": lambda: repr(s), "graph": lambda: s.graph, "to_dict": s.to_dict}.get(op[2], lambda: None)()
            else:
                real.apply(op, model)
            for name in model.synths:
                if model.valid(name):
                    self.verify_graph(self.expected(model, real, name), real.synths[name].graph, f"synth {name} after {op[:3]}")
                    checked += 1
        for i, (want, pop) in enumerate(kept):
            self.verify_population(want, pop, "drawn earlier", ctx)
            if sc["save"] == "none":
                continue
            f = os.path.join(ctx.scratch, f"{i}.h5")
            if sc["save"] == "file":
                pop.writeto(f)
                again = popsynth.Population.from_file(f)
            elif sc["save"] == "group":
                if i == 0:
                    pop.writeto(os.path.join(ctx.scratch, "g.h5"))
                pop.addto(os.path.join(ctx.scratch, "g.h5"), f"p{i}")
                again = popsynth.Population.from_group(os.path.join(ctx.scratch, "g.h5"), f"p{i}")
            else:
                again = pop.to_sub_population()
            self.verify_population(want, again, sc["save"], ctx)
            ctx.probe("again_" + sc["save"])
        ctx.nontrivial = checked >= 3
        ctx.sig = repr((world.shape(spec), [(a, b["secondary"]) for a, b in sorted(spec["aux"].items())], kinds))
        ctx.samples = {"graph": {a: b["secondary"] for a, b in spec["aux"].items()}, "roots": spec["roots"], "history": kinds,
                       "populations": len(kept), "then": sc["save"]}

    # ------------------------------------------------------------------

    @staticmethod
    def expected(model, real, name):
        s = model.synths[name]
        spatial = real.dists[s["spatial"]]
        lum = None if s["lum"] is None else real.dists[s["lum"]]
        members = model.members(name)
        nodes = {spatial.name, "obs_flux"}
        edges = {(spatial.name, "obs_flux")}
        may = set()
        may_nodes = set()
        bright = model.nodes[s["derived"]]["name"] if s["derived"] else lum.name if lum is not None else None
        if bright is not None:
            nodes.add(bright)
            edges.add((bright, "obs_flux"))
        for i in members:
            n = model.nodes[i]
            nodes.add(n["name"])
            if n["observed"] and i != s["derived"]:
                nodes.add(n["name"] + "_obs")
                edges.add((n["name"], n["name"] + "_obs"))
            if i == s["derived"]:
                may.add((n["name"], n["name"] + "_obs"))
                may_nodes.add(n["name"] + "_obs")
            if n["type"] in USES_DIST:
                edges.add((spatial.name, n["name"]))
            if n["type"] in USES_SKY:
                may.add((spatial.name, n["name"]))
            if n["type"] in history.USES_LUM:
                may.add((bright, n["name"]))
            for x in n["secondary"].values():
                edges.add((model.nodes[x]["name"], n["name"]))
        for i in members:
            x = model.nodes[i].get("sel")
            if x and model.sels[x]["use"] == "dist":
                may.add((spatial.name, model.nodes[i]["name"]))
            if x and model.sels[x]["use"] == "lum":
                may.add((bright, model.nodes[i]["name"]))
        truth = {spatial.name: expected_truth(spatial, model.dists[s["spatial"]]["params"])}
        if not s["derived"] and lum is not None:
            truth[lum.name] = expected_truth(lum, model.dists[s["lum"]]["params"])
        for i in members:
            truth[model.nodes[i]["name"]] = expected_truth(real.nodes[i], model.nodes[i]["params"])
        spaces = {x[0]: np.logspace(np.log10(x[1]), np.log10(x[2]), 500) if x[3] else np.linspace(x[1], x[2], 500) for x in s["spaces"]}
        return {"nodes": nodes, "edges": edges, "may": may, "may_nodes": may_nodes, "truth": truth, "spaces": spaces, "seed": s["seed"],
                "spatial": expected_truth(spatial, model.dists[s["spatial"]]["params"]), "spatial_form": spatial.form,
                "lum": None if lum is None else expected_truth(lum, model.dists[s["lum"]]["params"]),
                "lum_form": None if lum is None else lum.form, "derived": bool(s["derived"]), "route": s["route"],
                "r_max": float(spatial.r_max), "synth": name}

    @staticmethod
    def verify_graph(want, g, where):
        nodes, edges = graph_of(g)
        for what, w, may, got in (("nodes", want["nodes"], want["may_nodes"], nodes), ("edges", want["edges"], want["may"], edges)):
            if w - got:
                raise Violation("graph-misses-" + what, f"graph of {where}: misses {sorted(w - got)}; it has {sorted(got)}")
            if got - w - may:
                raise Violation("graph-has-extra-" + what, f"graph of {where}: has {sorted(got - w - may)}, attached are {sorted(w)}")

    def verify_population(self, want, pop, where, ctx):
        ctx.event(want["synth"], where, sorted(want["edges"]))
        ctx.state(sorted(want["edges"]), where)
        where = f"a population ({where}) of synth {want['synth']}"
        self.verify_graph(want, pop.graph, where)

        def check(what, a, b):
            if a != b:
                raise Violation("model-recorded-wrongly", f"{what} of {where} is {b} where {a} was in force")

        check("truth", want["truth"], {str(k): numbers(v) for k, v in pop.truth.items()})
        check("spatial_parameters", want["spatial"], numbers(pop.spatial_parameters))
        if not want["derived"]:
            check("luminosity_parameters", want["lum"], numbers(pop.luminosity_parameters))
        stan = pop.to_stan_data()
        check("r_max", want["r_max"], float(stan["r_max"]))
        check("z_max", want["r_max"], float(stan["z_max"]))
        sigma = pop.flux_sigma
        check("flux_sigma", want["flux_sigma"], None if sigma is None or sigma < 0 else float(sigma))
        # there is no public way to the first
        check("seed", int(want["seed"]), int(getattr(pop, "_seed", want["seed"])))
        check("described seed", int(want["seed"]), int(pop.pop_synth["seed"]))
        check("N_model", 500, int(stan["N_model"]))
        std = {"N", "Nz", "Nnz", "z_obs", "known_z_obs", "z_idx", "z_nidx", "r_obs", "known_r_obs", "r_idx", "r_nidx",
               "log_flux_obs", "flux_obs", "flux_sigma", "z_max", "r_max", "N_model"}
        aux = {n + "_obs" for n in want["truth"]}
        check("model spaces", sorted(want["spaces"]), sorted(k for k in stan if k not in std and k not in aux))
        for k, v in want["spaces"].items():
            got = np.asarray(stan[k])
            if got.shape != v.shape or not np.allclose(got, v, rtol=1e-12):
                raise Violation("model-recorded-wrongly", f"model space {k} of {where} is {got[:3]}...{got[-3:]}, declared as {v[:3]}...{v[-3:]}")

    def shrink(self, sc):
        if sc["save"] != "none":
            yield dict(sc, save="none")
        for l in world.shrink_list(sc["ops"]):
            yield dict(sc, ops=l)
        for s in world.shrink_spec(sc["spec"]):
            yield dict(sc, spec=s)


CHECK = C19
