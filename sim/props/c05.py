"""C05: an object is detected exactly when it passes every selection."""
import copy
import math

import numpy as np

import canon
import history
import judge
import ops
import popsynth
import world
from engine import Check, Violation

Z = 7.5     # two-sided p < 1e-13


class _W(object):
    def __init__(self, synth):
        self.synth = synth


def zscore(k, probs):
    mean, var = float(np.sum(probs)), float(np.sum(probs * (1 - probs)))
    if var < 25:
        return 0.0
    # a little slack for the normal approximation
    return (abs(k - mean) - 0.5) / math.sqrt(var)


class C05(Check):
    cid = "C05"
    level = "exploration"
    technique = "seeded simulation of surveys and configuration histories, detection recomputed object by object; acceptance rates tested statistically"
    rule = ("a run is one random synth with selections whose bounds are placed exactly on values of a pilot survey, drawn "
            "once, redrawn, or put through a history of selector replacements and sharing; or a large survey testing "
            "acceptance probabilities; non-trivial if objects were drawn and at least one selection was attached")
    state_measure = "distinct (configuration shape, detected fraction decile, known fraction decile)"
    real = ["all of popsynth's selection code", "numpy and scipy generators", "astropy coordinates"]
    stub = ["simulated user samplers, selectors and distributions"]
    assumptions = ["soft selections accept with expit(strength (log10 value - log10 boundary))",
                   "acceptance rates are tested to about 7 standard deviations of the sample"]
    quick_n = 1500
    thorough_n = 60000

    def gen(self, rng, index, tier):
        if index % 5 == 4:
            return self.gen_stat(rng)
        if index % 5 in (1, 3):
            spec, hist, names = history.gen(rng, rng.choice([2, 4, 6, 10, 14]), target=rng.choice([10, 20, 40]), sel_prob=0.6)
            for n in names:
                hist.append(["draw", n, world.gen_draw(rng)])
            return {"kind": "history", "spec": spec, "ops": hist, "progress": rng.random() < 0.2}
        spec = world.gen_spec(rng, target=rng.choice([5, 20, 40, 80]), sel_prob=rng.choice([0.2, 0.5, 0.9]),
                              share_prob=rng.choice([0.1, 0.6]))
        if rng.random() < 0.3:
            s = self.all_secondary_selected(rng, spec)
        draws = [world.gen_draw(rng) for _ in range(rng.choice([0, 0, 1, 2]))]
        return {"kind": "plain", "spec": spec, "more": draws, "progress": rng.random() < 0.3}

    def all_secondary_selected(self, rng, spec):
        """Put selections on the deepest samplers only."""
        under = world.reachable(spec["aux"], spec["derived"]) if spec["derived"] else set()
        for n, a in spec["aux"].items():
            a["sel"] = None
        deep = [n for n in spec["aux"] if n not in spec["roots"]]
        for n in deep:
            a = spec["aux"][n]
            positive = a["type"] in world.POSITIVE and not a["observed"]
            a["sel"] = world.gen_selection(rng, "obs", positive=positive)

    def gen_stat(self, rng):
        kind = rng.choice(["flux", "aux", "dist", "pair", "secondary", "derived", "soft_dist", "soft_lum", "aux"])
        soft = rng.random() < 0.5
        progress = rng.random() < 0.3
        n = rng.choice([4000, 12000]) if progress else rng.choice([5000, 20000, 50000])
        return {"kind": "stat", "what": kind, "soft": soft, "n": n, "progress": progress, "seed": rng.randrange(2 ** 31),
                "p": [rng.choice([world.uni(rng, 0.02, 0.98), 0.05, 0.5, 0.9, 0.0, 1.0, None]) for _ in range(2)], "strength": world.uni(rng, 0.3, 30),
                "boundary": world.uni(rng, 0.5, 8), "draws": rng.choice([1, 2]),
                "share": rng.random() < 0.5}

    # ------------------------------------------------------------ running

    def run(self, sc, ctx):
        if sc["kind"] == "stat":
            return self.run_stat(sc, ctx)
        spec = world.resolve(sc["spec"], ctx)
        ops.set_progress(sc["progress"])
        if sc["kind"] == "history":
            return self.run_history(sc, spec, ctx)
        w = world.build(spec)
        seen = 0
        for args in [spec["draw"]] + sc["more"]:
            pop = world.draw(w, args)
            seen += self.look(spec, pop, w.selectors, ctx)
        ctx.steps += 1 + len(sc["more"])
        ctx.nontrivial = seen > 0 and any(True for _ in world._selections(spec))
        ctx.sig = repr((world.shape(spec), sorted(spec["draw"]), len(sc["more"])))
        ctx.samples = {"spec": spec}

    def look(self, spec, pop, handles, ctx):
        p, exact = judge.detection(spec, pop, handles, ctx)
        ctx.event(p.n, int(p.selection.sum()), len(p.known), canon.arr(p.selection))
        ctx.probe("exact" if exact else "bounded")
        if p.n:
            d = int(p.selection.sum())
            ctx.probe("all_detected" if d == p.n else "none_detected" if d == 0 else "some_detected")
            k = len(p.known)
            ctx.state(world.shape(spec), 10 * d // p.n, 10 * k // d if d else -1)
        return p.n

    def run_history(self, sc, spec, ctx):
        model = history.Model()
        model.load("A", spec)
        real = history.Real()
        real.load(model, "A", spec)
        seen = 0
        kinds = []
        for op in sc["ops"]:
            if not model.apply(op):
                continue
            ctx.steps += 1
            kinds.append(op[0])
            if op[0] == "draw":
                current = model.spec(op[1])
                pop = world.draw(_W(real.synths[op[1]]), op[2])
                m = model.synths[op[1]]
                handles = {}
                for slot, label in (("flux_sel", "flux"), ("dist_sel", "dist"), ("spat_sel", "spat")):
                    if m[slot]:
                        handles[label] = real.sels[m[slot]]
                for n in model.members(op[1]):
                    if model.nodes[n]["sel"]:
                        handles["aux:" + model.nodes[n]["name"]] = real.sels[model.nodes[n]["sel"]]
                seen += self.look(current, pop, handles, ctx)
            elif op[0] == "fail":
                if ops.fail_draw(_W(real.synths[op[1]]), op[2], op[3]):
                    ctx.fault("failing_draw")
            elif op[0] == "peek":
                pass
            else:
                real.apply(op, model)
        ctx.nontrivial = seen > 0
        ctx.sig = repr((world.shape(spec), kinds))
        ctx.samples = {"spatial": spec["spatial"]["type"], "history": [o[:3] for o in sc["ops"]][:10]}

    # --------------------------------------------------------- statistics

    def run_stat(self, sc, ctx):
        ops.set_progress(sc["progress"])
        n = sc["n"]
        synth = popsynth.PopulationSynth(
            world.build_distribution({"type": "ConstantSphericalDistribution", "params": {"Lambda": 1.0, "r_max": 10.0}}),
            luminosity_distribution=world.build_distribution({"type": "LogNormalDistribution", "params": {"mu": 1.0, "tau": 1.0}}),
            seed=sc["seed"])

        def selector(i, use):
            if sc["soft"] or sc["what"].startswith("soft"):
                if use == "flux":
                    return {"type": "SoftFluxSelection", "params": {"boundary": 0.01 * sc["boundary"], "strength": sc["strength"]}, "use": None}
                return {"type": "SoftSelection", "params": {"boundary": sc["boundary"], "strength": sc["strength"]}, "use": use}
            p = sc["p"][i]
            return {"type": "BernoulliSelection", "params": {} if p is None else {"probability": p}, "use": None}

        tests = []       # (label, probabilities, outcome)
        node = lambda name: world.build_sampler(name, {"type": "LogNormalAuxSampler", "observed": False, "params": {"mu": 1.0, "tau": 0.8}})
        what = sc["what"]
        spec = {"aux": {}, "flux_sel": None, "dist_sel": None, "spat_sel": None}
        sels = {}

        def put(label, s, obj=None):
            sels[label] = obj or world.build_selector(s)
            return sels[label]

        if what == "flux":
            spec["flux_sel"] = selector(0, "flux")
            synth.set_flux_selection(put("flux", spec["flux_sel"]))
        elif what == "dist":
            spec["dist_sel"] = selector(0, "dist")
            synth.set_distance_selection(put("dist", spec["dist_sel"]))
        elif what in ("aux", "soft_dist", "soft_lum"):
            use = {"aux": "obs", "soft_dist": "dist", "soft_lum": "lum"}[what]
            s = selector(0, use)
            a = node("a")
            if use == "dist":
                a = world.build_sampler("a", {"type": "SimDistNode", "observed": False, "params": {}})
            a.set_selection_probability(put("aux:a", s))
            synth.add_observed_quantity(a)
            spec["aux"]["a"] = {"sel": s}
        elif what == "pair":
            s = selector(0, "obs")
            t = s if sc["share"] else selector(1, "obs")
            a, b = node("a"), node("b")
            o = put("aux:a", s)
            a.set_selection_probability(o)
            b.set_selection_probability(put("aux:b", t, o if sc["share"] else None))
            synth.add_observed_quantity(a)
            synth.add_observed_quantity(b)
            spec["aux"] = {"a": {"sel": s}, "b": {"sel": t}}
        elif what == "secondary":
            s, t = selector(0, "obs"), selector(1, "obs")
            a = world.build_sampler("a", {"type": "SimNode", "observed": False, "params": {}})
            b = node("b")
            c = node("c")
            b.set_secondary_sampler(c)
            a.set_secondary_sampler(b)
            b.set_selection_probability(put("aux:b", s))
            c.set_selection_probability(put("aux:c", t))
            synth.add_observed_quantity(a)
            spec["aux"] = {"b": {"sel": s}, "c": {"sel": t}, "a": {"sel": None}}
        else:
            s, t = selector(0, "obs"), selector(1, "obs")
            if s["type"] == "SoftSelection":
                s = {"type": "BernoulliSelection", "params": {"probability": 0.7}, "use": None}
            d = world.build_sampler("d", {"type": "SimDerived", "observed": False, "params": {}})
            b = node("b")
            d.set_secondary_sampler(b)
            d.set_selection_probability(put("aux:d", s))
            b.set_selection_probability(put("aux:b", t))
            synth.add_observed_quantity(d)
            spec["aux"] = {"d": {"sel": s}, "b": {"sel": t}}

        for k in range(sc["draws"]):
            pop = synth.draw_survey(n_samples=n)
            p = judge.Plain(pop, [x for x in spec["aux"]])
            probs = np.ones(n)
            for label, s, values in judge.parts(spec, p):
                pr = judge.accept(s, values, p)[2]
                probs = probs * pr
            got = p.selection
            label = what
            if what == "dist":
                if not got.all():
                    raise Violation("object-rejected-though-passing", "nothing but a distance selection is attached")
                probs = judge.accept(spec["dist_sel"], p.dist, p)[2]
                got = np.zeros(n, dtype=bool)
                got[p.known_idx.astype(int)] = True
            ctx.event(what, n, int(got.sum()))
            self.rates(ctx, sc, probs, got, p)
        ctx.steps += sc["draws"]
        ctx.nontrivial = True
        ctx.sig = repr((what, sc["soft"], sc["progress"], sc["share"], n, sc["p"], sc["draws"]))
        ctx.state(what, sc["soft"], sc["progress"], n)
        ctx.samples = {k: sc[k] for k in ("what", "soft", "n", "progress", "p")}

    def rates(self, ctx, sc, probs, got, p):
        n = len(got)
        order = {"order of drawing": np.arange(n), "probability": np.argsort(probs, kind="stable"), "distance": np.argsort(p.dist, kind="stable"),
                 "flux": np.argsort(p.flux, kind="stable"), "luminosity": np.argsort(p.lum, kind="stable"), "polar angle": np.argsort(p.theta, kind="stable")}
        z = zscore(int(got.sum()), probs)
        if z > Z:
            raise Violation("acceptance-rate", f"{int(got.sum())} of {n} accepted, {probs.sum():.1f} expected ({z:.1f} sigma)")
        if (got & (probs <= 0)).any() or (~got & (probs >= 1)).any():
            raise Violation("acceptance-rate", "probability 0 or 1 not respected")
        for name, o in order.items():
            for chunk in np.array_split(o, 10):
                z = zscore(int(got[chunk].sum()), probs[chunk])
                ctx.probe("rate_tests")
                if z > Z:
                    raise Violation("acceptance-rate", f"by {name}: {int(got[chunk].sum())} of {len(chunk)} accepted, {probs[chunk].sum():.1f} expected ({z:.1f} sigma)")
        # neighbours in drawing order are independent
        r = got.astype(float) - probs
        v = probs * (1 - probs)
        if v.sum() > 50:
            for lag in (1, 2, n // 2):
                c = float((r[:-lag] * r[lag:]).sum())
                s = math.sqrt(float((v[:-lag] * v[lag:]).sum()))
                if s > 3 and abs(c) / s > 9:
                    raise Violation("acceptance-independence", f"outcomes {lag} apart are correlated ({c / s:.1f} sigma)")

    def shrink(self, sc):
        if sc["kind"] == "stat":
            for k, v in (("progress", False), ("draws", 1)):
                if sc[k] != v:
                    yield dict(sc, **{k: v})
            if sc["n"] > 5000:
                yield dict(sc, n=5000)
            return
        if sc["kind"] == "plain":
            for l in world.shrink_list(sc["more"]):
                yield dict(sc, more=l)
        else:
            for l in world.shrink_list(sc["ops"]):
                yield dict(sc, ops=l)
        if sc["progress"]:
            yield dict(sc, progress=False)
        for s in world.shrink_spec(sc["spec"]):
            yield dict(sc, spec=s)


CHECK = C05
