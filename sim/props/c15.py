"""C15: observed values derive from each object's own latent values."""
import math
import operator

import numpy as np
from scipy import integrate, stats

import canon
import history
import ops
import popsynth
import world
from engine import Check, Violation

ZMAX = 9.0
P = 1e-11
MPC = 3.0856775814913673e24          # cm


class _W(object):
    def __init__(self, synth):
        self.synth = synth


def luminosity_distance(z, om=0.307, h0=67.7):
    """cm, exact integral of the flat cosmology popsynth is configured with."""
    dm = np.array([integrate.quad(lambda x: 1 / math.sqrt(om * (1 + x) ** 3 + 1 - om), 0, float(v))[0] for v in z])
    return (1 + np.asarray(z)) * dm * 299792.458 / h0 * MPC


def latent_flux(kind, lum, dist):
    """(flux, relative accuracy)"""
    if kind in world.COSMO:
        return lum / (4 * math.pi * luminosity_distance(dist) ** 2), 1e-2
    if kind == "FlatlandDistribution":
        return lum, 1e-12
    if kind == "SimSpatial":
        return lum / (1 + dist ** 2), 1e-12
    # popsynth declares this with an offset of one, finite at the centre
    return lum / (4 * math.pi * (1 + dist) ** 2), 1e-12


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and canon.arr(a) == canon.arr(b)


class C15(Check):
    cid = "C15"
    level = "exploration"
    technique = ("seeded simulation of surveys, configuration histories and sequences of array operations; every object's observed "
                 "values are recomputed or standardised from its own recorded latent values")
    rule = ("a run is a random history of draws and changes, or a large survey for the distribution of the scatter, or a random "
            "sequence of array operations (some failing) on a population's quantities with a plain-array model; non-trivial if "
            "objects were drawn; distinct by configuration and history")
    state_measure = "distinct (spatial type, flux selection and error used, sampler types with observed flags) or operation kinds"
    real = ["all of popsynth", "numpy"]
    stub = ["simulated user samplers, selectors and distributions"]
    assumptions = ["single scatters are bounded at 9 sigma; their distribution is tested on large surveys at p < 1e-11",
                   "cosmological fluxes agree with the exact integral to 1% and with one another as one function of distance"]
    quick_n = 1500
    thorough_n = 60000

    def prepare(self):
        self.defaults = {}
        for t in tuple(world.AUX_TYPES) + tuple(world.SIM_AUX) + ("SimDerived", "SimDerivedDist"):
            self.defaults[t] = world.class_defaults(world.registered(world.auxiliary_parameter_registry, t))

    def gen(self, rng, index, tier):
        k = index % 6
        if k in (0, 1, 2):
            spec, hist, names = history.gen(rng, rng.choice([0, 2, 4, 8]), draws=3, target=rng.choice([3, 10, 20]),
                                            derived_prob=0.3, sel_prob=0.3)
            for n in names:
                hist.append(["draw", n, world.gen_draw(rng)])
            return {"kind": "survey", "spec": spec, "ops": hist}
        if k == 3:
            spec = world.gen_spec(rng, target=5, derived_prob=0.25, sel_prob=0.3, max_nodes=5)
            d = world.gen_draw(rng)
            d["flux_sigma"] = rng.choice([world.uni(rng, 0.02, 1.5)] * 3 + [world.r3(10 ** rng.uniform(-6, -1.3)), 0.0, None])
            d["log10_flux_draw"] = rng.random() < 0.5
            d["n_samples"] = rng.choice([2000, 10000, 30000])
            if rng.random() < 0.7:
                spec["flux_sel"] = spec["flux_sel"] or {"type": "HardFluxSelection", "params": {"boundary": 1e-3}, "use": None}
            for a in spec["aux"].values():
                # large samples resolve the spacing of floating point numbers
                if 0 < a["params"].get("sigma", 1) < 1e-3:
                    a["params"]["sigma"] = 1e-3
                for k in ("mu", "xp"):
                    if abs(a["params"].get(k, 0)) > 1e5:
                        a["params"][k] = 1e5
            return {"kind": "stat", "spec": spec, "draw": d}
        spec = world.gen_spec(rng, target=rng.choice([3, 10]), sel_prob=0.5, max_nodes=4)
        spec["draw"]["n_samples"] = rng.choice([0, 1, 2, 6, 12])
        if not spec["flux_sel"]:
            spec["flux_sel"] = {"type": "HardFluxSelection", "params": {"boundary": {"q": 0.4}}, "use": None}
        if "flux_sigma" not in spec["draw"]:
            spec["draw"]["flux_sigma"] = 0.4
        return {"kind": "array", "spec": spec, "via": rng.choice(["drawn", "drawn", "file", "sub"]),
                "ops": [self.gen_op(rng) for _ in range(rng.choice([3, 6, 10, 16]))]}

    # ------------------------------------------------------------- surveys

    def run(self, sc, ctx):
        spec = world.resolve(sc["spec"], ctx)
        if sc["kind"] == "array":
            return self.run_array(sc, spec, ctx)
        if sc["kind"] == "stat":
            return self.run_stat(sc, spec, ctx)
        model = history.Model()
        model.load("A", spec)
        real = history.Real()
        real.load(model, "A", spec)
        kinds = []
        seen = 0
        for op in sc["ops"]:
            if not model.apply(op):
                continue
            ctx.steps += 1
            kinds.append(op[0])
            if op[0] == "draw":
                pop = real.synths[op[1]].draw_survey(**op[2])
                self.relations(model.spec(op[1]), op[2], pop, ctx)
                seen += pop.n_objects
            elif op[0] == "fail":
                if ops.fail_draw(_W(real.synths[op[1]]), op[2], op[3]):
                    ctx.fault("failing_draw")
            elif op[0] == "peek":
                pass
            else:
                real.apply(op, model)
        ctx.nontrivial = seen > 0
        ctx.sig = repr((world.shape(spec), kinds))
        ctx.samples = {"spatial": spec["spatial"]["type"], "history": kinds}

    def relations(self, spec, args, pop, ctx):
        """Returns {label: standardised scatter} of the population."""
        n = int(pop.n_objects)
        lum, dist = np.array(pop.luminosities), np.array(pop.distances)
        obs, lat = np.array(pop.fluxes), np.array(pop.fluxes.latent)
        z = {}
        label = f"{spec['spatial']['type']}, {n} objects, {args}"

        def bad(cls, what, mask=None):
            i = f" (first at object {int(np.where(mask)[0][0])})" if mask is not None else ""
            raise Violation(cls, f"{label}: {what}{i}")

        for name, q in (("luminosities", pop.luminosities), ("distances", pop.distances), ("theta", pop.theta), ("phi", pop.phi)):
            if not same(np.asarray(q), q.latent):
                bad("observed-differs-from-latent", f"{name} have observed values differing from the latent ones")
        # latent flux
        want, acc = latent_flux(spec["spatial"]["type"], lum, dist)
        off = ~(np.abs(lat - want) <= acc * np.abs(want))
        if off.any():
            i = int(np.where(off)[0][0])
            bad("latent-flux", f"the latent flux of luminosity {lum[i]!r} at {dist[i]!r} is {lat[i]!r} instead of {want[i]!r}", off)
        if spec["spatial"]["type"] in world.COSMO and n > 1:
            # one smooth function of the distance, whatever the object
            ratio = lat / want
            o = np.argsort(dist)
            step = np.abs(np.diff(ratio[o])) > 1e-4 + 0.5 * np.diff(dist[o])
            if step.any():
                bad("latent-flux", "latent fluxes are not one function of luminosity and distance")
        # observed flux
        sigma = args.get("flux_sigma")
        scattered = sigma is not None and spec["flux_sel"] is not None and spec["flux_sel"]["type"] != "UnitySelection"
        ctx.probe("flux_scattered" if scattered else "flux_not_scattered")
        if not scattered or sigma == 0:
            if scattered:
                off = ~(np.abs(obs - lat) <= 1e-12 * np.abs(lat))
            else:
                off = obs != lat
            if off.any():
                bad("observed-flux", "observed fluxes differ from the latent ones without a flux error or selection", off)
        else:
            f = np.log10 if args.get("log10_flux_draw", True) else np.log
            z["flux"] = (f(obs) - f(lat)) / sigma
        if float(pop.flux_sigma) != (sigma if scattered else -1):
            bad("observed-flux", f"flux_sigma is {pop.flux_sigma}")
        # samplers
        for name, a in spec["aux"].items():
            q = getattr(pop, name)
            obs, lat = np.asarray(q), np.asarray(q.latent)
            if not a["observed"] or a["type"] == "ViewingAngleSampler" or name == spec["derived"]:
                if not same(obs, lat):
                    bad("unobserved-scattered", f"{name} is not observed but its observed values differ from its latent ones")
                ctx.probe("aux_unobserved")
            else:
                p = dict(self.defaults[a["type"]], **a["params"])
                if p["sigma"] == 0:
                    if not np.allclose(obs, lat, rtol=1e-12, atol=0):
                        bad("observed-aux", f"{name} is observed without error but differs from its latent values")
                else:
                    z["obs " + name] = (obs - lat) / p["sigma"]
                ctx.probe("aux_observed_" + ("sim" if a["type"] in world.SIM_AUX else "library"))
            if a["type"].startswith("Sim"):
                r = self.residual(spec, name, pop)
                if r is not None:
                    z["true " + name] = r
        # derived luminosity
        if spec["derived"]:
            want = np.power(10.0, 0.3 * np.asarray(getattr(pop, spec["derived"]).latent))
            for x in spec["aux"][spec["derived"]]["secondary"]:
                want = want * (1.5 + np.tanh(np.asarray(getattr(pop, x).latent, dtype=float) / 10))
            if not np.allclose(lum, want, rtol=1e-12, atol=0):
                bad("derived-luminosity", "the luminosities are not the ones derived from this survey's values", ~np.isclose(lum, want, rtol=1e-12, atol=0))
            ctx.probe("derived_luminosity")
        for k, v in z.items():
            if len(v) != n or not (np.abs(v) < ZMAX).all():
                bad("scatter", f"{k}: scattered by {np.abs(v).max() if len(v) else None} declared errors")
            if n > 20 and len(np.unique(v)) < 0.9 * n:
                bad("scatter", f"{k}: objects share the same scatter")
        ctx.event(label, canon.arr(np.asarray(pop.fluxes)))
        ctx.state(spec["spatial"]["type"], scattered, bool(spec["derived"]), sorted((a["type"], a["observed"]) for a in spec["aux"].values()))
        return z

    def residual(self, spec, name, pop):
        a = spec["aux"][name]
        p = dict(self.defaults[a["type"]], **a["params"])
        if p["tau"] == 0:
            return None
        derived = a["type"].startswith("SimDerived")
        loc = np.full(pop.n_objects, float(p["mu"]))
        for x in a["secondary"]:
            q = getattr(pop, x)
            loc = loc + 0.5 * np.tanh(np.asarray(q.latent, dtype=float) / 10)
            if not derived:
                loc = loc + 0.25 * np.tanh(np.asarray(q, dtype=float) / 10)
        d, l, t, f = (np.asarray(x) for x in (pop.distances, pop.luminosities, pop.theta, pop.phi))
        if a["type"] in ("SimDistNode", "SimAllNode"):
            loc = loc + np.log10(1 + d)
        if a["type"] == "SimDerivedDist":
            loc = loc + 0.1 * np.log10(1 + d)
        if a["type"] in ("SimLumNode", "SimAllNode"):
            loc = loc + 0.2 * np.log10(l)
        if a["type"] in ("SimSkyNode", "SimAllNode"):
            loc = loc + 0.1 * np.sin(t) + 0.01 * f
        return (np.asarray(getattr(pop, name).latent) - loc) / p["tau"]

    def run_stat(self, sc, spec, ctx):
        w = world.build(spec)
        pop = world.draw(w, sc["draw"])
        z = self.relations(spec, sc["draw"], pop, ctx)
        n = int(pop.n_objects)
        for k, v in z.items():
            p = stats.kstest(v, "norm").pvalue
            ctx.probe("scatter_tests")
            mean, var = v.mean() * math.sqrt(n), ((v ** 2).mean() - 1) * math.sqrt(n / 2)
            if abs(mean) > 8 or abs(var) > 8:
                raise Violation("scatter", f"{k}: standardised scatter of {n} objects has mean {v.mean():.4f} ({mean:.1f} sigma) std {v.std():.4f} ({var:.1f} sigma)")
            if p < P:
                raise Violation("scatter", f"{k}: standardised scatter is not standard normal: mean {v.mean():.4f} std {v.std():.4f} (p={p:.1e})")
        # scatters are independent of each other and of the object
        cols = dict(z)
        for name, q in (("log luminosity", np.log(np.asarray(pop.luminosities, dtype=float))), ("distance", np.asarray(pop.distances, dtype=float)),
                        ("order", np.arange(n, dtype=float))):
            if len(np.unique(q)) > n // 2:
                cols[name] = stats.norm.ppf((stats.rankdata(q) - 0.5) / n)
        names = list(cols)
        for i, a in enumerate(names):
            for b in names[i + 1:]:
                # derived luminosities follow from the samplers
                if b == "log luminosity" and spec["derived"] and a.startswith("true"):
                    continue
                if a in z or b in z:
                    r = float(np.corrcoef(cols[a], cols[b])[0, 1]) * math.sqrt(n)
                    ctx.probe("independence_tests")
                    if not abs(r) < 8.5:
                        raise Violation("scatter-dependent", f"the scatter of {a} and {b} are correlated ({r:.1f} sigma, {n} objects)")
        ctx.steps += 1
        ctx.nontrivial = bool(z)
        ctx.sig = repr((world.shape(spec), sorted(sc["draw"].items(), key=str)))
        ctx.samples = {"spec": spec, "draw": sc["draw"]}

    # ----------------------------------------------------- array operations

    UNARY = ("negative", "absolute", "square", "log10", "exp", "sqrt", "sign", "isfinite", "cos")
    BINARY = ("add", "subtract", "multiply", "true_divide", "maximum", "minimum", "less", "greater", "greater_equal", "power", "arctan2", "hypot")
    INPLACE = ("add", "subtract", "multiply", "true_divide")

    def gen_op(self, rng):
        k = rng.choice(["unary", "unary", "binary", "binary", "binary", "inplace", "inplace", "inplace", "out", "out_plain", "two", "mask", "mask",
                        "slice", "take", "selected", "non_selected", "reduce", "accumulate", "scalar", "fail", "where", "bool", "reverse"])
        other = rng.choice([["var", rng.randrange(9)], ["num", world.uni(rng, -3, 3)], ["num", 2], ["arr", rng.randrange(999)], ["np", world.uni(rng, 0.1, 3)]])
        return [k, rng.randrange(9), rng.randrange(99), other]

    def run_array(self, sc, spec, ctx):
        w = world.build(spec)
        pop = world.draw(w, spec["draw"])
        if sc["via"] == "file":
            import os
            f = os.path.join(ctx.scratch, "p.h5")
            pop.writeto(f)
            pop = popsynth.Population.from_file(f)
        elif sc["via"] == "sub":
            pop = pop.to_sub_population(observed=False)
        pool = []           # [variable, observed, latent, selection]
        for name in ["fluxes", "luminosities", "distances", "theta"] + sorted(spec["aux"]):
            q = getattr(pop, name)
            pool.append([q, np.array(np.asarray(q), dtype=float), np.array(q.latent, dtype=float), np.array(pop.selection, dtype=bool)])
            # integer values would restrict the operations
            if np.asarray(q).dtype.kind != "f" or q.latent.dtype.kind != "f":
                pool.pop()
        self.compare(pool, "at first")
        kinds = []
        fresh = len(pool)
        for op in sc["ops"]:
            i = op[1] % len(pool)
            ctx.steps += 1
            with np.errstate(all="ignore"):
                try:
                    out = self.one(op, pool, i, ctx)
                except (TypeError, ValueError, AttributeError, AssertionError, RuntimeError, IndexError, KeyError) as e:
                    raise Violation("array-error", f"after {kinds}: {op} on {pool[i][1]} (latent {pool[i][2]}) raised {type(e).__name__}: {e}")
            if out is False:
                continue
            kinds.append(op[0])
            ctx.probe("array_" + op[0])
            if out is not None:
                pool.append(out)
            self.compare(pool, f"after {kinds} ({op})")
            if len(pool) > fresh + 6:
                pool.pop(fresh)
        ctx.event(kinds, [canon.arr(x[1]) for x in pool], [canon.arr(x[2]) for x in pool])
        ctx.state(sorted(set(kinds)), min(3, pop.n_objects))
        ctx.nontrivial = pop.n_objects > 0 and bool(kinds)
        ctx.sig = repr((sc["via"], kinds, pop.n_objects, len(spec["aux"])))
        ctx.samples = {"operations": sc["ops"], "objects": pop.n_objects}

    def compare(self, pool, what):
        for j, (q, obs, lat, sel) in enumerate(pool):
            for name, got, want in (("observed", np.asarray(q), obs), ("latent", q.latent, lat)):
                if not same(got, want):
                    raise Violation("array-" + name, f"{what}: {name} values of quantity {j} are {got} instead of {want}")
            if q.ndim == 1:
                for name, got, m in (("selected", q.selected, sel), ("non_selected", q.non_selected, ~sel)):
                    if not (same(np.asarray(got), obs[m]) and same(got.latent, lat[m])):
                        raise Violation("array-selection", f"{what}: {name} of quantity {j}: {np.asarray(got)}, {got.latent} instead of {obs[m]}, {lat[m]}")

    def one(self, op, pool, i, ctx):
        k, _, r, other = op
        q, obs, lat, sel = pool[i]
        n = len(obs)
        num = obs.dtype.kind == "f"
        if not num and k not in ("mask", "slice", "take", "selected", "non_selected", "scalar"):
            return False

        def operand():
            """(object, plain for observed, plain for latent)"""
            if other[0] == "var":
                ok = [x for x in pool if len(x[1]) == n and x[1].dtype.kind == "f" and np.array_equal(x[3], sel)]
                x = ok[other[1] % len(ok)]
                return x[0], x[1], x[2]
            if other[0] == "num":
                return other[1], other[1], other[1]
            if other[0] == "np":
                return np.float64(other[1]), other[1], other[1]
            a = np.random.RandomState(other[1]).uniform(-2, 2, n)
            return a, a, a

        if k == "unary":
            f = getattr(np, self.UNARY[r % len(self.UNARY)])
            return [f(q), f(obs), f(lat), sel]
        if k in ("binary", "reverse"):
            f = getattr(np, self.BINARY[r % len(self.BINARY)])
            a, b, c = operand()
            if k == "reverse":
                return [f(a, q), f(b, obs), f(c, lat), sel]
            return [f(q, a), f(obs, b), f(lat, c), sel]
        if k == "inplace":
            f = {"add": operator.iadd, "subtract": operator.isub, "multiply": operator.imul, "true_divide": operator.itruediv}[self.INPLACE[r % 4]]
            a, b, c = operand()
            b, c = np.array(b), np.array(c)
            x = f(q, a)
            if x is not q:
                raise Violation("array-inplace", f"in-place {self.INPLACE[r % 4]} gave another object")
            pool[i][1], pool[i][2] = f(obs, b), f(lat, c)
            # the same quantity may be held more than once
            for y in pool:
                if y[0] is q:
                    y[1], y[2] = pool[i][1], pool[i][2]
            return None
        if k == "out":
            ok = [x for x in pool if len(x[1]) == n and x[1].dtype.kind == "f"]
            t = ok[r % len(ok)]
            a, b, c = operand()
            x = np.add(q, a, out=t[0])
            if x is not t[0]:
                raise Violation("array-inplace", "out= gave another object")
            new = (obs + b, lat + c)
            for y in pool:
                if y[0] is t[0]:
                    y[1], y[2] = new
            return None
        if k == "out_plain":
            t = np.zeros(n)
            a, b, c = operand()
            np.multiply(q, a, out=t)
            if not same(t, obs * b):
                raise Violation("array-observed", f"multiply into a plain array gave {t} instead of {obs * b}")
            return None
        if k == "two":
            x, y = np.divmod(q, 0.7) if r % 2 else np.modf(q)
            a = np.divmod(obs, 0.7) if r % 2 else np.modf(obs)
            b = np.divmod(lat, 0.7) if r % 2 else np.modf(lat)
            pool.append([x, a[0], b[0], sel])
            return [y, a[1], b[1], sel]
        if k == "where":
            mask = np.random.RandomState(r).uniform(size=n) < 0.5
            a, b, c = operand()
            b, c = np.array(b), np.array(c)
            np.add(q, a, out=q, where=mask)
            new = (np.where(mask, obs + b, obs), np.where(mask, lat + c, lat))
            for y in pool:
                if y[0] is q:
                    y[1], y[2] = new
            return None
        if k == "mask":
            mask = np.random.RandomState(r).uniform(size=n) < 0.6
            return [q[mask], obs[mask], lat[mask], sel[mask]]
        if k == "bool":
            if n == 0:
                return False
            cut = float(obs[r % n])
            if not math.isfinite(cut):
                return False
            m = obs > cut
            return [q[q > cut], obs[m], lat[m], sel[m]]
        if k == "slice":
            s = [slice(None), slice(1, None), slice(None, -1), slice(None, None, 2), slice(None, None, -1)][r % 5]
            return [q[s], obs[s].copy(), lat[s].copy(), sel[s].copy()]
        if k == "take":
            if n == 0:
                return False
            idx = np.random.RandomState(r).randint(0, n, size=r % 6)
            return [q[idx], obs[idx], lat[idx], sel[idx]]
        if k == "selected":
            return [q.selected, obs[sel], lat[sel], np.ones(int(sel.sum()), dtype=bool)]
        if k == "non_selected":
            return [q.non_selected, obs[~sel], lat[~sel], np.zeros(int((~sel).sum()), dtype=bool)]
        if k == "reduce":
            for name, got, want in (("sum", q.sum(), obs.sum()), ("mean", q.mean() if n else 0, obs.mean() if n else 0),
                                    ("max", q.max() if n else 0, obs.max() if n else 0)):
                if canon.scalar(float(got)) != canon.scalar(float(want)):
                    raise Violation("array-reduction", f"{name} is {got} instead of {want}")
            return None
        if k == "accumulate":
            return [np.add.accumulate(q), np.add.accumulate(obs), np.add.accumulate(lat), sel]
        if k == "scalar":
            if n == 0:
                return False
            if canon.scalar(float(q[r % n])) != canon.scalar(float(obs[r % n])):
                raise Violation("array-observed", f"entry {r % n} is {q[r % n]} instead of {obs[r % n]}")
            return None
        if k == "fail":
            # an operation that cannot be done changes nothing
            try:
                if r % 3 == 0:
                    q += np.zeros(n + 2 if n != 1 else (2, 2))
                elif r % 3 == 1:
                    q += "text"
                else:
                    np.add(q, 1j, out=q)
            except Exception:
                ctx.fault("failing_operation")
                return None
            return False
        raise KeyError(k)

    def shrink(self, sc):
        if sc["kind"] == "stat":
            if sc["draw"]["n_samples"] > 2000:
                yield dict(sc, draw=dict(sc["draw"], n_samples=2000))
        else:
            for l in world.shrink_list(sc["ops"]):
                yield dict(sc, ops=l)
        for s in world.shrink_spec(sc["spec"]):
            yield dict(sc, spec=s)


CHECK = C15
