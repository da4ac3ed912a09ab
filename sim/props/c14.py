"""C14: drawn values follow their declared distributions."""
import copy
import math

import numpy as np
from scipy import special, stats

import ops
import popsynth
import world
from engine import Check, Violation

world.TIES = False      # distances follow their density

P = 1e-12
Z = 8.5


# --------------------------------------------- declared distributions, again

def grid_cdf(density, a, b, n=4000):
    """CDF on a grid from midpoints of a density."""
    x = np.linspace(a, b, n + 1)
    m = 0.5 * (x[1:] + x[:-1])
    c = np.concatenate([[0.0], np.cumsum(density(m) * np.diff(x))])
    return x, c / c[-1], c[-1]


def comoving(z, om=0.307, h0=67.7):
    """Comoving volume element per steradian, Gpc^3 (vectorised)."""
    dh = 299792.458 / h0
    g = np.linspace(0, float(np.max(z)) if len(z) else 1.0, 6001)
    e = 1 / np.sqrt(om * (1 + g) ** 3 + 1 - om)
    dc = dh * np.concatenate([[0.0], np.cumsum(0.5 * (e[1:] + e[:-1]) * np.diff(g))])
    dm = np.interp(z, g, dc)
    return dh * dm * dm / np.sqrt(om * (1 + z) ** 3 + 1 - om) * 1e-9


def spatial_density(d):
    """Number per unit distance for a unit prefactor."""
    p, t = d["params"], d["type"]
    if t == "ConstantSphericalDistribution":
        return lambda r: 4 * math.pi * r * r
    if t == "ZPowerSphericalDistribution":
        return lambda r: 4 * math.pi * r * r * (1 + r) ** p["delta"]
    if t == "SimSpatial":
        return lambda r: 4 * math.pi * r * r * (1 + p["k"] * np.cos(r)) ** 2
    if t == "FlatlandDistribution":
        return lambda r: np.ones_like(r)
    if t == "SpiralGalaxyDistribution":
        s = p["R0"] + p["R1"]
        return lambda r: 4 * math.pi * r * r * ((r + p["R1"]) / s) ** p["a"] * np.exp(-p["b"] * (r - p["R0"]) / s)
    rate = (lambda z: 1 + z) if d.get("is_rate", True) else (lambda z: 1.0)
    if t == "ZPowerCosmoDistribution":
        return lambda z: comoving(z) * (1 + z) ** p["delta"] / rate(z)
    if t == "SFRDistribution":
        return lambda z: comoving(z) * (p["a"] + p["rise"] * z) / (1 + (z / p["peak"]) ** p["decay"]) / rate(z)
    if t == "UniformCosmoDistribution":
        return lambda z: comoving(z) / (p["zmax"] - p["zmin"]) / rate(z)
    raise KeyError(t)


def distance_cdf(d):
    x, c, total = grid_cdf(spatial_density(d), 0.0, d["params"]["r_max"])
    if d["type"] != "SpiralGalaxyDistribution":
        return (lambda v: np.interp(v, x, c)), total
    # spiral arms smear the distances by seven per cent
    m, w = 0.5 * (x[1:] + x[:-1]), np.diff(c)
    g = np.linspace(0, 1.6 * x[-1], 1500)
    f = np.array([float((w * special.ndtr((v - m) / (0.07 * m))).sum()) for v in g])
    return (lambda v: np.interp(v, g, f)), total


def piece(a, b, s):
    """The integral of x^s from a to b."""
    k = s + 1
    return math.log(b / a) if abs(k) < 1e-12 else a ** k * math.expm1(k * math.log(b / a)) / k


def pieces(x, a, s):
    k = s + 1
    return np.log(x / a) if abs(k) < 1e-12 else a ** k * np.expm1(k * np.log(x / a)) / k


def broken_power_law(lo, br, hi, a, b):
    one, two = piece(lo, br, a), br ** (a - b) * piece(br, hi, b)

    def cdf(x):
        x = np.asarray(x, dtype=float)
        low = pieces(np.minimum(x, br), lo, a)
        high = br ** (a - b) * pieces(np.maximum(x, br), br, b)
        return (low + high) / (one + two)

    return cdf


def truncated(cdf, lo, hi):
    a, b = cdf(lo), cdf(hi)
    return lambda x: (cdf(x) - a) / (b - a)


def value_cdf(t, p):
    """(CDF, lower bound, upper bound) of a luminosity or auxiliary type; a
    plain number stands for a constant."""
    inf = math.inf
    if t in ("ParetoDistribution", "ParetoAuxSampler"):
        m, a = p.get("Lmin", p.get("xmin")), p["alpha"]
        return (lambda x: 1 - (m / x) ** a), m, inf
    if t == "BPLDistribution":
        return broken_power_law(p["Lmin"], p["Lbreak"], p["Lmax"], p["alpha"], p["beta"]), p["Lmin"], p["Lmax"]
    if t == "BrokenPowerLawAuxSampler":
        return broken_power_law(p["xmin"], p["xbreak"], p["xmax"], p["alpha"], p["beta"]), p["xmin"], p["xmax"]
    if t in ("LogNormalDistribution", "LogNormalAuxSampler"):
        return (lambda x: special.ndtr((np.log(x) - p["mu"]) / p["tau"])), 0, inf
    if t in ("Log10NormalDistribution", "Log10NormalAuxSampler"):
        return (lambda x: special.ndtr((np.log10(x) - p["mu"]) / p["tau"])), 0, inf
    if t == "SchechterDistribution":
        return (lambda x: special.gammainc(1 + p["alpha"], np.asarray(x) / p["Lmin"])), 0, inf
    if t == "LogUniLuminiosityDistribution":
        return (lambda x: np.log(np.asarray(x) / p["Lmin"]) / math.log(p["Lmax"] / p["Lmin"])), p["Lmin"], p["Lmax"]
    if t == "DeltaDistribution":
        return p["Lp"], None, None
    if t == "DeltaAuxSampler":
        return p["xp"], None, None
    if t == "SimLum":
        return (lambda x: 1 / (1 + (np.asarray(x) / p["Lc"]) ** -p["s"])), 0, inf
    if t == "NormalAuxSampler":
        return (lambda x: special.ndtr((np.asarray(x) - p["mu"]) / p["tau"])), -inf, inf
    if t == "PowerLawAuxSampler":
        tot = piece(p["xmin"], p["xmax"], p["alpha"])
        return (lambda x: pieces(np.asarray(x), p["xmin"], p["alpha"]) / tot), p["xmin"], p["xmax"]
    if t == "TruncatedNormalAuxSampler":
        return truncated(lambda x: special.ndtr((np.asarray(x) - p["mu"]) / p["tau"]), p["lower"], p["upper"]), p["lower"], p["upper"]
    if t in ("TruncatedLogNormalAuxSampler", "TruncatedLog10NormalAuxSampler"):
        log = np.log10 if "10" in t else np.log

        def cdf(x):
            with np.errstate(divide="ignore"):
                return special.ndtr((log(np.asarray(x, dtype=float)) - p["mu"]) / p["tau"])

        return truncated(cdf, p["lower"], p["upper"]), p["lower"], p["upper"]
    if t == "ViewingAngleSampler":
        m = math.radians(p["max_angle"])
        return (lambda x: (1 - np.cos(x)) / (1 - math.cos(m))), 0, m
    raise KeyError(t)


def scores(v):
    return stats.norm.ppf((stats.rankdata(v) - 0.5) / len(v))


class C14(Check):
    cid = "C14"
    level = "exploration"
    technique = ("seeded simulation of large surveys (and of many small ones for the counts) after random earlier activity, on every "
                 "sampling path; drawn values tested against independently computed distributions")
    rule = ("a run is one configuration of a spatial, a luminosity and several auxiliary distributions, drawn after a random prelude "
            "of other draws, failures and parameter changes, with progress bars and normalisation on or off; all values of one "
            "survey, or the counts of hundreds of surveys, are tested; non-trivial if at least a thousand objects were drawn or a "
            "hundred counts tested; distinct by configuration and path")
    state_measure = "distinct (types drawn, progress bars, normalised, requested or Poisson number)"
    real = ["all of popsynth", "numpy and scipy generators"]
    stub = ["numba compilation is switched off (the same functions run as plain Python)", "a simulated spatial and luminosity distribution among the real ones"]
    assumptions = ["Kolmogorov-Smirnov, mean and dependence tests at p < 1e-12 per statement: deviations below the resolution of the sample go unseen",
                   "cosmological densities are per steradian, as documented for the volume element"]
    quick_n = 600
    thorough_n = 12000

    def prepare(self):
        self.defaults = {}
        for t in world.SPATIAL_TYPES + world.LUM_TYPES:
            self.defaults[t] = world.class_defaults(world.registered(world.distribution_registry, t))
        for t in world.AUX_TYPES:
            self.defaults[t] = world.class_defaults(world.registered(world.auxiliary_parameter_registry, t))

    # ---------------------------------------------------------- generation

    def gen(self, rng, index, tier):
        t = world.SPATIAL_TYPES[(index // 3) % len(world.SPATIAL_TYPES)]
        if index % 3 == 2:
            target, k = rng.choice([0.7, 3, 3, 12]), rng.choice([300, 600])
            number = rng.choice([2, 5, 9.5])
            if rng.random() < 0.4:
                # large numbers vary too
                t = rng.choice(["FlatlandDistribution", "ConstantSphericalDistribution", "SimSpatial"])
                target, k = rng.choice([(60, 300), (400, 200), (1500, 100), (5000, 60)])
                number = target
            d = world.gen_spatial(rng, (t,), target=target)
            return {"kind": "count", "spatial": d, "first": rng.randrange(2 ** 30), "surveys": k, "progress": rng.random() < 0.3,
                    "normalize": t in world.NORMALIZED and rng.random() < 0.4, "number": number}
        types = list(world.AUX_TYPES)
        lum = world.LUM_TYPES[index % len(world.LUM_TYPES)] if index % 2 else rng.choice(world.LUM_TYPES)
        cheap = t in ("FlatlandDistribution", "ConstantSphericalDistribution")
        progress = rng.random() < 0.4
        if index % 3 == 0:
            n = rng.choice([4000, 10000, 20000]) if cheap else rng.choice([4000, 10000])
        else:
            n = rng.choice([20000, 50000])
            t = "FlatlandDistribution"
        d = world.gen_spatial(rng, (t,), target=n)
        aux = {}
        for i in range(rng.choice([1, 2, 3, 4, 5])):
            a = rng.choice(types)
            name = "va" if a == "ViewingAngleSampler" else "q%d" % i
            aux[name] = {"type": a, "observed": a != "ViewingAngleSampler" and rng.random() < 0.5, "params": world.gen_aux_params(rng, a),
                         "secondary": [], "sel": None}
        self.extremes(rng, aux)
        names = list(aux)
        roots = list(names)
        if len(names) > 1 and rng.random() < 0.4:
            aux[names[0]]["secondary"] = names[1:]
            roots = names[:1]
        spec = {"seed": rng.randrange(2 ** 31), "route": "builtin" if rng.random() < 0.25 else "synth", "spatial": d,
                "lum": world.gen_lum(rng, (lum,)), "aux": aux, "roots": roots, "derived": None, "flux_sel": None, "dist_sel": None,
                "spat_sel": None, "spaces": [], "draw": {}}
        draw = {"normalize": rng.random() < 0.4}
        if draw["normalize"] and t in world.NORMALIZED:
            # the declared prefactor is then the number of objects
            if rng.random() < 0.5:
                d["params"][world.NORM[t]] = float(n)
            else:
                draw["n_samples"] = n
        elif draw["normalize"] or rng.random() < 0.5:
            draw["n_samples"] = n
        prelude = []
        for _ in range(rng.choice([0, 0, 1, 2, 3])):
            k = rng.choice(["draw", "draw", "spatial", "lum", "aux", "fail", "other", "random"])
            x = None
            if k == "draw":
                x = {"n_samples": rng.choice([0, 1, 7]), "normalize": rng.random() < 0.5, "progress": rng.random() < 0.5}
            elif k == "spatial":
                x = world.gen_spatial(rng, (t,))["params"]
                x = {k: v for k, v in x.items() if k in d["params"]}
            elif k == "lum":
                x = world.gen_lum(rng, (lum,))["params"]
                x = {k: v for k, v in x.items() if k in spec["lum"]["params"]}
            elif k == "aux":
                i = rng.choice(names)
                x = [i, {k: v for k, v in world.gen_aux_params(rng, aux[i]["type"]).items() if k in aux[i]["params"]}]
            elif k == "fail":
                x = rng.choice([0, 1, 3, 8, 10, 13, 20])
            elif k == "other":
                x = world.gen_spec(rng, target=3, max_nodes=2)
            elif k == "random":
                x = rng.randrange(1000)
            prelude.append([k, x])
        return {"kind": "survey", "spec": spec, "draw": draw, "progress": progress, "prelude": prelude}

    def extremes(self, rng, aux):
        for a in aux.values():
            if rng.random() < (0.4 if "PowerLaw" in a["type"] else 0.25):
                if a["type"] == "ViewingAngleSampler":
                    a["params"]["max_angle"] = rng.choice([180.0, 90.0, 1.0])
                elif a["type"] == "TruncatedNormalAuxSampler":
                    a["params"].update(mu=rng.choice([-6.0, 4.0]), tau=1.0)
                elif a["type"] == "PowerLawAuxSampler":
                    if rng.random() < 0.5:
                        a["params"].update(xmin=0.01, xmax=world.r3(10 ** rng.uniform(1, 4)))
                    a["params"]["alpha"] = rng.choice([-1.0, world.near_minus_one(rng), world.near_minus_one(rng), 0.0, -2.0])
                elif a["type"] == "BrokenPowerLawAuxSampler":
                    a["params"].update(rng.choice([{"beta": -1.0}, {"alpha": -1.0}, {"alpha": 0.0, "beta": 0.0}]))
                elif a["type"].startswith("TruncatedLog"):
                    a["params"]["lower"] = 0.0

    # -------------------------------------------------------------- running

    def params(self, d):
        return dict(self.defaults[d["type"]], **d["params"])

    def run(self, sc, ctx):
        ops.set_progress(sc["progress"])
        ctx.steps += 1
        if sc["kind"] == "count":
            return self.run_count(sc, ctx)
        spec = world.resolve(sc["spec"], ctx)
        w = world.build(spec)
        for k, x in sc["prelude"]:
            ctx.probe("prelude_" + k)
            ctx.steps += 1
            if k == "draw":
                ops.set_progress(x["progress"])
                w.synth.draw_survey(n_samples=x["n_samples"], normalize=x["normalize"])
            elif k == "spatial":
                for a, v in x.items():
                    setattr(w.spatial, a, v)
                w.synth.draw_survey(n_samples=3)
            elif k == "lum":
                for a, v in x.items():
                    setattr(w.lum, a, v)
            elif k == "aux":
                for a, v in x[1].items():
                    setattr(w.nodes[x[0]], a, v)
            elif k == "fail":
                if ops.fail_draw(w, {"n_samples": 4}, x):
                    ctx.fault("failing_draw")
            elif k == "other":
                o = world.resolve(x, ctx)
                world.draw(world.build(o), {"n_samples": 3})
            else:
                np.random.uniform(size=x)
        ops.set_progress(sc["progress"])
        for a, v in spec["spatial"]["params"].items():
            setattr(w.spatial, a, v)
        for a, v in spec["lum"]["params"].items():
            setattr(w.lum, a, v)
        for name, q in spec["aux"].items():
            for a, v in q["params"].items():
                setattr(w.nodes[name], a, v)
        pop = w.synth.draw_survey(**sc["draw"])
        self.judge(spec, sc, pop, ctx)

    def ks(self, label, v, cdf, lo, hi, ctx):
        v = np.asarray(v, dtype=float)
        ctx.probe("tested " + label.split(" ")[0])
        if not np.isscalar(cdf) and len(v) and not (v.min() >= lo * (1 - 1e-12 * np.sign(lo)) and v.max() <= hi + 1e-12 * abs(hi) if math.isfinite(hi) else v.min() >= lo):
            raise Violation("out-of-bounds", f"{label}: drawn between {v.min()} and {v.max()}, declared {lo} to {hi}")
        if np.isscalar(cdf):
            if not (v == cdf).all():
                raise Violation("not-constant", f"{label}: declared to be {cdf} but {v[v != cdf][:3]} were drawn")
            return
        if not len(v):
            return
        # draws of a continuous distribution are all different, as far as
        # floating point numbers can tell
        same = len(v) - len(np.unique(v))
        q1, q3 = np.quantile(v, (0.25, 0.75))
        if same > 3 + 0.002 * len(v) and np.spacing(max(abs(q1), abs(q3))) * len(v) ** 2 < q3 - q1:
            raise Violation("coarse", f"{label}: {same} of {len(v)} values occur more than once")
        u = np.clip(cdf(v), 0, 1)
        r = stats.kstest(u, "uniform")
        if r.pvalue < P:
            raise Violation("distribution", f"{label}: {len(v)} values do not follow the declared distribution: largest deviation of the "
                                            f"cumulative distribution {r.statistic:.4f} (p={r.pvalue:.1e}), mean {v.mean():.5g} median {np.median(v):.5g}")
        # nothing is missing at the ends
        for end, gap in (("smallest", u.min()), ("largest", 1 - u.max())):
            if gap * len(u) > 40:
                raise Violation("range", f"{label}: the {end} of {len(v)} values leaves {gap:.2%} of the declared distribution undrawn ({v.min()} to {v.max()})")
        # finer than the largest deviation
        if len(u) >= 1000:
            for bins in (10, 50):
                c = np.bincount(np.minimum((u * bins).astype(int), bins - 1), minlength=bins)
                e = len(u) / bins
                q = stats.chi2.sf(((c - e) ** 2).sum() / e, bins - 1)
                if q < P:
                    i = int(np.argmax(np.abs(c - e)))
                    raise Violation("distribution", f"{label}: {len(v)} values are not spread as declared: {c[i]} of them between the quantiles {i / bins} "
                                                    f"and {(i + 1) / bins} where {e:.0f} are expected (p={q:.1e})")

    def judge(self, spec, sc, pop, ctx):
        n = int(pop.n_objects)
        d = {"type": spec["spatial"]["type"], "params": self.params(spec["spatial"]), "is_rate": spec["spatial"].get("is_rate", True)}
        t, p = d["type"], d["params"]
        cdf, total = distance_cdf(d)
        # number
        want = sc["draw"].get("n_samples")
        if want is not None:
            if n != want:
                raise Violation("number", f"{n} objects instead of the requested {want}")
        else:
            mean = p[world.NORM[t]] * (1 if sc["draw"]["normalize"] else total)
            if abs(n - mean) > Z * math.sqrt(mean) + 0.005 * mean + 3:
                raise Violation("number", f"{t}: {n} objects where {mean:.1f} are expected ({sc['draw']})")
        path = f"(progress bars {sc['progress']}, {sc['draw']}, after {[k for k, _ in sc['prelude']]})"
        dist = np.asarray(pop.distances)
        self.ks(f"{t} distances {path}", dist, cdf, 0 if t != "SpiralGalaxyDistribution" else -math.inf,
                p["r_max"] if t != "SpiralGalaxyDistribution" else math.inf, ctx)
        cols = {"order": scores(np.arange(n)), "distance": scores(dist)}
        theta, phi = np.asarray(pop.theta), np.asarray(pop.phi)
        if t != "SpiralGalaxyDistribution":
            self.ks(f"{t} polar angle {path}", np.cos(theta), lambda x: 0.5 * (1 + x), -1, 1, ctx)
            self.ks(f"{t} azimuth {path}", phi, lambda x: x / (2 * math.pi), 0, 2 * math.pi, ctx)
            if n and not (theta.min() >= 0 and theta.max() <= math.pi):
                raise Violation("out-of-bounds", f"polar angles between {theta.min()} and {theta.max()}")
            cols["polar angle"], cols["azimuth"] = scores(theta), scores(phi)
        else:
            # heights above the plane
            z = dist / np.tan(phi)
            self.ks(f"{t} heights {path}", z, lambda x: stats.laplace.cdf(x, scale=0.3), -math.inf, math.inf, ctx)
            cols["height"] = scores(z)
        lum = spec["lum"]
        c, lo, hi = value_cdf(lum["type"], self.params(lum))
        v = np.asarray(pop.luminosities)
        self.ks(f"{lum['type']} luminosities {path}", v, c, lo, hi, ctx)
        if not np.isscalar(c):
            cols["luminosity"] = scores(v)
        for name, a in spec["aux"].items():
            c, lo, hi = value_cdf(a["type"], self.params(a))
            v = np.asarray(getattr(pop, name).latent)
            self.ks(f"{a['type']} values of {name} {path}", v, c, lo, hi, ctx)
            if not np.isscalar(c):
                cols[name] = scores(v)
        # independence of the quantities and of successive objects
        names = list(cols)
        for i, a in enumerate(names):
            for b in names[i + 1:]:
                self.corr(f"{a} and {b}", cols[a], cols[b], ctx)
            if a != "order" and n > 500:
                for lag in (1, 2, n // 2):
                    self.corr(f"{a} of objects {lag} apart", cols[a][:-lag], cols[a][lag:], ctx)
                self.corr(f"squared {a} of successive objects", scores(np.abs(cols[a][:-1])), scores(np.abs(cols[a][1:])), ctx)
        ctx.event(n, float(dist.sum()), float(theta.sum()), float(v.sum()) if len(spec["aux"]) else 0)
        ctx.nontrivial = n >= 1000
        kinds = (t, lum["type"], sorted(a["type"] for a in spec["aux"].values()), sc["progress"], sc["draw"]["normalize"], "n_samples" in sc["draw"])
        ctx.state(kinds)
        ctx.sig = repr((kinds, spec["spatial"]["params"], [k for k, _ in sc["prelude"]]))
        ctx.samples = {"types": kinds, "objects": n}

    def corr(self, label, a, b, ctx):
        if len(a) < 200:
            return
        r = float(np.corrcoef(a, b)[0, 1]) * math.sqrt(len(a))
        ctx.probe("dependence_tests")
        if not abs(r) < Z:
            raise Violation("dependent", f"{label} are correlated ({r:.1f} sigma, {len(a)} objects)")

    def run_count(self, sc, ctx):
        d = copy.deepcopy(sc["spatial"])
        t = d["type"]
        if sc["normalize"]:
            d["params"][world.NORM[t]] = sc["number"]
        full = {"type": t, "params": self.params(d), "is_rate": d.get("is_rate", True)}
        mean = full["params"][world.NORM[t]]
        if not sc["normalize"]:
            mean *= distance_cdf(full)[1]
        counts = []
        dist = []
        for i in range(sc["surveys"]):
            synth = popsynth.PopulationSynth(world.build_distribution(d), world.build_distribution({"type": "DeltaDistribution", "params": {"Lp": 2.0}}),
                                             seed=sc["first"] + i)
            pop = synth.draw_survey(normalize=sc["normalize"])
            counts.append(int(pop.n_objects))
            dist.append(np.asarray(pop.distances))
        counts = np.array(counts)
        k = len(counts)
        total = int(counts.sum())
        label = f"{t}, normalize={sc['normalize']}, progress bars {sc['progress']}"
        z = (total - k * mean) / math.sqrt(k * mean)
        if abs(z) > Z + 0.005 * k * mean / math.sqrt(k * mean):
            raise Violation("number", f"{label}: {counts.mean():.3f} objects per survey where {mean:.3f} are expected ({z:.1f} sigma)")
        # the spread of a Poisson distribution
        c2 = float(((counts - mean) ** 2).sum() / mean)
        lo, hi = stats.chi2.sf(c2, k), stats.chi2.cdf(c2, k)
        sd = (c2 - k) / math.sqrt(k * (2 + 1 / mean))
        if abs(sd) > Z + 1 or (mean > 30 and min(lo, hi) < P):
            raise Violation("number-spread", f"{label}: numbers of objects vary {c2 / k:.3f} times as much as Poisson numbers ({sd:.1f} sigma)")
        if (counts < 0).any():
            raise Violation("number", "negative number of objects")
        zero = (int((counts == 0).sum()) - k * math.exp(-mean)) / math.sqrt(max(k * math.exp(-mean), 1))
        if zero > Z + 2:
            raise Violation("number-spread", f"{label}: {int((counts == 0).sum())} empty surveys of {k}")
        self.ks(f"{t} distances over surveys ({label})", np.concatenate(dist), distance_cdf(full)[0], -math.inf, math.inf, ctx)
        ctx.event(counts.tolist())
        ctx.probe("count_tests")
        ctx.steps += k
        ctx.nontrivial = k >= 100 or total >= 1000
        ctx.state("count", t, sc["normalize"], sc["progress"])
        ctx.sig = repr((t, sc["normalize"], sc["progress"], d["params"]))
        ctx.samples = {"type": t, "mean": mean, "surveys": k, "total": total}

    def shrink(self, sc):
        if sc["kind"] == "count":
            return
        for l in world.shrink_list(sc["prelude"]):
            yield dict(sc, prelude=l)
        if sc["progress"]:
            yield dict(sc, progress=False)
        for name in list(sc["spec"]["aux"]):
            s = copy.deepcopy(sc["spec"])
            s["aux"].pop(name)
            s["roots"] = [r for r in s["roots"] if r != name]
            for a in s["aux"].values():
                a["secondary"] = [x for x in a["secondary"] if x != name]
            reach = set(s["roots"])
            for r in list(reach):
                reach |= world.reachable(s["aux"], r)
            s["roots"] += [x for x in s["aux"] if x not in reach]
            pre = [[k, x] for k, x in sc["prelude"] if not (k == "aux" and x[0] == name)]
            yield dict(sc, spec=s, prelude=pre)


CHECK = C14
