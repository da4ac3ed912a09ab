"""C13: auxiliary samplers: each drawn once, dependencies first, all recorded."""
import numpy as np

import canon
import history
import ops
import world
from engine import Check, Violation
from popsynth.utils.meta import Parameter


class _W(object):
    def __init__(self, synth):
        self.synth = synth


def plain(x):
    return None if x is None else np.array(np.asarray(x), copy=True)


def same(a, b):
    return a is not None and b is not None and canon.arr(np.asarray(a)) == canon.arr(np.asarray(b))


def expected_truth(node, params):
    """Parameters set, and the defaults of the others."""
    out = {}
    for cls in reversed(type(node).mro()):
        for k, v in vars(cls).items():
            if isinstance(v, Parameter) and v.default is not None:
                out[k] = float(v.default)
    out.update({k: float(v) for k, v in params.items()})
    return out


class Recorder(object):
    """Watches the callbacks of samplers."""

    def __init__(self):
        self.log = []
        self.seen = set()

    def watch(self, ident, node):
        if ident in self.seen:
            return
        self.seen.add(ident)
        log = self.log
        true, obs = node.true_sampler, node.observation_sampler

        def true_sampler(size):
            e = {"what": "true", "id": ident, "size": size,
                 "secondary": {n: (plain(s.true_values), plain(s.obs_values)) for n, s in node.secondary_samplers.items()}}
            for k in ("_distance", "_theta", "_phi", "_ra", "_dec", "_luminosity"):
                e[k] = plain(getattr(node, k, None))
            log.append(e)
            true(size)
            e["value"] = plain(node.true_values)

        def observation_sampler(size):
            e = {"what": "obs", "id": ident, "size": size, "true": plain(node.true_values)}
            log.append(e)
            obs(size)
            e["value"] = plain(node.obs_values)

        node.true_sampler = true_sampler
        node.observation_sampler = observation_sampler
        if hasattr(node, "compute_luminosity"):
            compute = node.compute_luminosity

            def compute_luminosity():
                e = {"what": "luminosity", "id": ident}
                log.append(e)
                out = compute()
                e["value"] = plain(out)
                return out

            node.compute_luminosity = compute_luminosity


class C13(Check):
    cid = "C13"
    level = "exploration"
    technique = ("seeded simulation of histories over random sampler graphs; the log of every sampler's callbacks and of the values "
                 "it saw is checked against the graph and the population")
    rule = ("a run is one random synth with a graph of samplers (chains, trees, fans, shared samplers, derived luminosity) and a "
            "random history of draws, failing draws and changes of the graph; every draw's callback log is checked; non-trivial if a "
            "draw had objects and at least two samplers; distinct by history")
    state_measure = "distinct (graph edges with sampler types and observed flags) drawn"
    real = ["popsynth's sampler graph, draw order and population recording", "numpy generators"]
    stub = ["simulated user samplers; library samplers run unchanged behind recording wrappers"]
    assumptions = []
    quick_n = 1500
    thorough_n = 60000

    def gen(self, rng, index, tier):
        spec, hist, names = history.gen(
            rng, rng.choice([0, 2, 4, 8, 14]), draws=3, target=rng.choice([3, 8]), max_nodes=rng.choice([3, 5, 8, 10]),
            derived_prob=0.4, sel_prob=0.15, builtin_prob=0.05, clones=False)
        for n in names:
            hist.append(["draw", n, world.gen_draw(rng)])
        return {"spec": spec, "ops": hist}

    def run(self, sc, ctx):
        spec = world.resolve(sc["spec"], ctx)
        model = history.Model()
        model.load("A", spec)
        real = history.Real()
        real.load(model, "A", spec)
        rec = Recorder()
        big = False
        kinds = []
        for op in sc["ops"]:
            if not model.apply(op):
                continue
            ctx.steps += 1
            kinds.append(op[0])
            for i in sorted(real.nodes):
                rec.watch(i, real.nodes[i])
            if op[0] == "draw":
                del rec.log[:]
                pop = real.synths[op[1]].draw_survey(**op[2])
                self.verify(model, real, op[1], rec.log, pop, ctx)
                big = big or (pop.n_objects > 0 and len(model.members(op[1])) > 1)
            elif op[0] == "fail":
                if ops.fail_draw(_W(real.synths[op[1]]), op[2], op[3]):
                    ctx.fault("failing_draw")
            elif op[0] == "peek":
                s = real.synths[op[1]]
                {"repr": lambda: repr(s), "graph": lambda: s.graph, "to_dict": s.to_dict}.get(op[2], lambda: None)()
            else:
                real.apply(op, model)
        ctx.nontrivial = big
        ctx.sig = repr((world.shape(spec), [(a, b["secondary"]) for a, b in sorted(spec["aux"].items())], kinds))
        ctx.samples = {"graph": {a: b["secondary"] for a, b in spec["aux"].items()}, "roots": spec["roots"], "history": kinds}

    def verify(self, model, real, name, log, pop, ctx):
        members = model.members(name)
        s = model.synths[name]
        n = int(pop.n_objects)
        label = {i: model.nodes[i]["name"] for i in members}
        ctx.event(name, n, [(e["what"], e["id"]) for e in log])
        ctx.state(sorted((model.nodes[i]["type"], model.nodes[i]["observed"], sorted(model.nodes[i]["secondary"])) for i in members), n > 0)

        def bad(cls, what):
            raise Violation(cls, f"synth {name}, {n} objects, graph { {label[i]: sorted(model.nodes[i]['secondary']) for i in members} }: {what}")

        # 1. once each, and nothing else
        calls = {}
        when = {}
        for t, e in enumerate(log):
            calls.setdefault((e["what"], e["id"]), []).append(t)
        for i in members:
            derived = i == s["derived"]
            k = calls.get(("true", i), [])
            if len(k) != 1:
                bad("not-drawn-once", f"{label[i]} was drawn {len(k)} times")
            o = calls.get(("obs", i), [])
            want = 1 if model.nodes[i]["observed"] and not derived else 0
            if len(o) != want:
                bad("not-observed-once", f"{label[i]} was observed {len(o)} times instead of {want}")
            if o and o[0] < k[0]:
                bad("order", f"{label[i]} was observed before it was drawn")
            when[i] = (k[0], max(k + o))
            if log[k[0]]["size"] != n:
                bad("size", f"{label[i]} was drawn with size {log[k[0]]['size']}")
        for (what, i), t in calls.items():
            if i not in members:
                bad("foreign-sampler", f"{i} is not part of the synth but was called ({what})")
        lums = [e for e in log if e["what"] == "luminosity"]
        if len(lums) != (1 if s["derived"] else 0):
            bad("luminosity-not-once", f"the luminosity was computed {len(lums)} times")
        # 2. dependencies first
        for i in members:
            for x in model.nodes[i]["secondary"].values():
                if when[x][1] > when[i][0]:
                    bad("order", f"{label[i]} was drawn before its secondary {label[x]}")
        # 3. recorded: values
        stan = pop.to_stan_data()
        for i in members:
            var = getattr(pop, label[i], None)
            if var is None or label[i] + "_obs" not in stan:
                bad("not-recorded", f"{label[i]} is not in the population")
            e = log[calls[("true", i)][0]]
            if not same(var.latent, e["value"]):
                bad("recorded-values-differ", f"the latent values of {label[i]} are not the ones it drew")
            o = calls.get(("obs", i))
            v = log[o[0]]["value"] if o else e["value"]
            if not same(np.asarray(var), v):
                bad("recorded-values-differ", f"the observed values of {label[i]} are not the ones it drew")
            if o and not same(log[o[0]]["true"], e["value"]):
                bad("values-seen-differ", f"{label[i]} was observed from other values than it drew")
            if not same(stan[label[i] + "_obs"], np.asarray(v)[np.asarray(pop.selection, dtype=bool)]):
                bad("recorded-values-differ", f"the Stan data of {label[i]} are not the detected objects' values")
        extra = set(canon.aux_names(stan)) - set(label.values())
        if extra:
            bad("foreign-sampler", f"the population also has {sorted(extra)}")
        # 4. what samplers saw
        dist, theta, phi = (np.asarray(x) for x in (pop.distances, pop.theta, pop.phi))
        for i in members:
            e = log[calls[("true", i)][0]]
            if sorted(e["secondary"]) != sorted(model.nodes[i]["secondary"]):
                bad("values-seen-differ", f"{label[i]} saw the secondaries {sorted(e['secondary'])}")
            for x, (t, o) in e["secondary"].items():
                var = getattr(pop, x)
                if not (same(t, var.latent) and same(o, np.asarray(var))):
                    bad("values-seen-differ", f"{label[i]} did not see the values of {x} of this survey")
            for k, w in (("_distance", dist), ("_theta", theta), ("_phi", phi),
                         ("_ra", np.rad2deg(phi)), ("_dec", 90 - np.rad2deg(theta))):
                got = e[k]
                if got is None or got.shape != w.shape or not np.allclose(got, w, rtol=1e-12, atol=1e-12):
                    bad("spatial-values-differ", f"{label[i]} did not see {k[1:]} of this survey's objects: {got} instead of {w}")
            if model.nodes[i]["type"] in history.USES_LUM and not same(e["_luminosity"], np.asarray(pop.luminosities)):
                bad("luminosities-differ", f"{label[i]} did not see the luminosities of this survey")
        if s["derived"] and not same(lums[0]["value"], np.asarray(pop.luminosities)):
            bad("luminosities-differ", "the population's luminosities are not the derived ones")
        # 5. recorded: truth
        for i in members:
            want = expected_truth(real.nodes[i], model.nodes[i]["params"])
            got = pop.truth.get(label[i])
            if got is None or {k: float(v) for k, v in dict(got).items()} != want:
                bad("truth-differs", f"truth of {label[i]} is {got}, its parameters are {want}")
        names = set(pop.truth) - set(label.values())
        want = {real.dists[s["spatial"]].name}
        if not s["derived"]:
            want.add(real.dists[s["lum"]].name)
        if names != want:
            bad("truth-differs", f"truth also has {sorted(names)} where {sorted(want)} belong there")

    def shrink(self, sc):
        for l in world.shrink_list(sc["ops"]):
            yield dict(sc, ops=l)
        for s in world.shrink_spec(sc["spec"]):
            yield dict(sc, spec=s)


CHECK = C13
