"""C06: population bookkeeping over chains of draws, extractions and reloads."""
import os
import re

import numpy as np

import canon
import ops
import popsynth
import world
from engine import Check, Violation


def plain(x):
    return np.array(np.asarray(x))


def model_of(pop, aux):
    """The raw arrays of a drawn population."""
    m = {"q": {}, "selection": np.array(pop.selection, dtype=bool)}
    for k in ("luminosities", "distances", "fluxes", "theta", "phi"):
        v = getattr(pop, k)
        m["q"][k] = (plain(v), plain(v.latent))
    if pop.probability is not None:
        m["q"]["probability"] = (plain(pop.probability), plain(pop.probability.latent))
    m["aux"] = list(aux)
    for n in aux:
        v = getattr(pop, n)
        m["q"]["aux:" + n] = (plain(v), plain(v.latent))
    stan = pop.to_stan_data()
    m["known"] = plain(stan["z_idx"]).astype(int) - 1
    m["r_max"] = float(stan["r_max"])
    m["n_model"] = int(stan["N_model"])
    m["flux_sigma"] = float(stan["flux_sigma"])
    m["spaces"] = {}
    return m


def sub_model(m, observed):
    pick = m["selection"] if observed else ~m["selection"]
    idx = [i for i in range(len(pick)) if pick[i]]
    out = dict(m)
    out["q"] = {k: (a[idx], b[idx]) for k, (a, b) in m["q"].items()}
    out["selection"] = np.ones(len(idx), dtype=bool)
    out["known"] = m["known"] if observed else np.array([], dtype=int)
    return out


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a.astype(float), b.astype(float), equal_nan=True)


class C06(Check):
    cid = "C06"
    level = "exploration"
    technique = "seeded simulation of chains of draws, extractions, saves and reloads against a plain numpy model of each population"
    rule = ("a run draws populations (also empty, undetected and fully detected ones) and puts them through a random chain of "
            "sub-population extraction, saving, reloading, adding to groups and redrawing; every resulting population is "
            "compared with its model; non-trivial if some population holds objects; distinct by configuration shape and chain")
    state_measure = "distinct (number of objects, detections and known distances, all capped at 4; way the population came about)"
    real = ["popsynth populations, simulated variables, drawing and HDF5 storage", "h5py on real files"]
    stub = ["simulated user samplers, selectors and distributions"]
    assumptions = ["a drawn population's raw arrays are taken as they are; their values are judged by C05, C13, C14 and C15"]
    quick_n = 1300
    thorough_n = 50000

    def gen(self, rng, index, tier):
        specs = [world.gen_spec(rng, target=rng.choice([0.3, 2, 5, 10, 30]), sel_prob=rng.choice([0.1, 0.5, 0.5]))
                 for _ in range(rng.choice([1, 1, 2]))]
        for s in specs:
            if rng.random() < 0.15:
                s["flux_sel"] = {"type": "HardFluxSelection", "params": {"boundary": rng.choice([1e300, 0.0])}, "use": None}
            if rng.random() < 0.4:
                s["dist_sel"] = {"type": "BernoulliSelection", "params": {"probability": rng.choice([0.0, 1.0, 0.5, 0.3])}, "use": None}
        chain = []
        n = 0
        for _ in range(rng.choice([1, 2, 3, 5, 8, 12])):
            k = rng.choice(["draw", "sub", "sub", "sub", "save", "add", "look", "fail"]) if n else "draw"
            if k in ("draw", "fail"):
                chain.append([k, rng.randrange(len(specs)), world.gen_draw(rng, rng.choice([None, None, None, 4, 12, 25]))] + ([rng.randrange(10)] if k == "fail" else []))
                n += k == "draw"
            elif k == "sub":
                chain.append([k, rng.randrange(n), rng.random() < 0.6])
                n += 1
            elif k in ("save", "add"):
                chain.append([k, rng.randrange(n)])
                n += 1
            else:
                chain.append([k, rng.randrange(n)])
        return {"specs": specs, "chain": chain}

    def run(self, sc, ctx):
        specs = [world.resolve(s, ctx) for s in sc["specs"]]
        synths = {}
        pops = []       # (population, model, origin)
        nontrivial = False
        for op in sc["chain"]:
            k = op[0]
            ctx.steps += 1
            ctx.probe("op_" + k)
            if k in ("draw", "fail"):
                i = op[1] % len(specs)
                if i not in synths:
                    synths[i] = world.build(specs[i])
                if k == "fail":
                    if ops.fail_draw(synths[i], op[2], op[3]):
                        ctx.fault("failing_draw")
                    continue
                pop = world.draw(synths[i], op[2])
                aux = sorted(specs[i]["aux"])
                m = model_of(pop, aux)
                m["spaces"] = {s[0]: (np.logspace(np.log10(s[1]), np.log10(s[2]), m["n_model"]) if s[3] else np.linspace(s[1], s[2], m["n_model"]))
                               for s in specs[i]["spaces"]}
                origin = "draw"
            elif not pops:
                continue
            else:
                src, sm, so = pops[op[1] % len(pops)]
                if k == "look":
                    self.verify(src, sm, so)
                    continue
                if k == "sub":
                    pop = src.to_sub_population(observed=op[2])
                    m = sub_model(sm, op[2])
                    origin = so + (">det" if op[2] else ">undet")
                elif k == "save":
                    f = os.path.join(ctx.scratch, f"p{len(pops)}.h5")
                    src.writeto(f)
                    pop = popsynth.Population.from_file(f)
                    m, origin = sm, so + ">save"
                else:
                    f = os.path.join(ctx.scratch, "multi.h5")
                    if not os.path.exists(f):
                        src.writeto(f)
                    src.addto(f, f"g{len(pops)}")
                    pop = popsynth.Population.from_group(f, f"g{len(pops)}")
                    m, origin = sm, so + ">add"
            pops.append((pop, m, origin))
            self.verify(pop, m, origin)
            n = len(m["selection"])
            nontrivial |= n > 0
            det = int(m["selection"].sum())
            ctx.event(k, n, det, len(m["known"]))
            ctx.state(min(n, 4), min(det, 4), min(n - det, 4), min(len(m["known"]), 4), origin.split(">")[-2:])
            ctx.probe("empty" if n == 0 else "none_detected" if det == 0 else "all_detected" if det == n else "mixed")
            if det and 0 < len(m["known"]) < det:
                ctx.probe("some_distances_known")
        # nothing has changed meanwhile
        for pop, m, origin in pops:
            self.verify(pop, m, origin)
        ctx.nontrivial = nontrivial
        ctx.sig = repr(([world.shape(s) for s in specs], [o[0] for o in sc["chain"]]))
        ctx.samples = {"chain": [o[:2] for o in sc["chain"]], "spatial": specs[0]["spatial"], "origins": [o for _, _, o in pops]}

    def verify(self, pop, m, origin):
        def bad(what, detail=""):
            raise Violation(what, f"population {origin}: {detail}")

        sel = m["selection"]
        n, det = len(sel), int(sel.sum())
        idx = [i for i in range(n) if sel[i]]
        non = [i for i in range(n) if not sel[i]]
        if (pop.n_objects, pop.n_detections, pop.n_non_detections) != (n, det, n - det):
            bad("counts", f"{pop.n_objects} objects, {pop.n_detections} detected, {pop.n_non_detections} not; expected {n}, {det}, {n - det}")
        if bool(pop.has_detections) != (det > 0):
            bad("counts", f"has_detections is {pop.has_detections} with {det} detections")
        got = [int(x) for x in re.findall(r"(\d+)(?:\s|$)", repr(pop))]
        if got != [n, det, n - det]:
            bad("counts", f"the description says {repr(pop)!r}")
        s = np.asarray(pop.selection)
        if s.dtype != bool or not same(s, sel):
            bad("selection", f"{s.dtype} {s} expected {sel}")
        for k, (obs, lat) in m["q"].items():
            v = getattr(pop, k[4:] if k.startswith("aux:") else k)
            if v is None:
                bad("values", f"{k} is missing")
            for what, x, o, l in (("all", v, obs, lat), ("selected", v.selected, obs[idx], lat[idx]),
                                  ("non_selected", v.non_selected, obs[non], lat[non])):
                if not same(plain(x), o):
                    bad("values", f"{k} ({what}, observed): {plain(x)} expected {o}")
                if not same(x.latent, l):
                    bad("values", f"{k} ({what}, latent): {plain(x.latent)} expected {l}")
            a, b = v.selected, v.non_selected
            if len(a.selected) != det or len(a.non_selected) or len(b.selected) or len(b.non_selected) != n - det:
                bad("views", f"{k}: the selected view selects {len(a.selected)} of {det}, the other {len(b.selected)} of {n - det}")
            if n:
                # every object by its number, and a slice
                i = (7 * n) // 11
                if float(v[i]) != float(obs[i]) and obs[i] == obs[i]:
                    bad("values", f"{k}[{i}] is {v[i]}")
                part = v[::2]
                if not (same(plain(part), obs[::2]) and same(part.latent, lat[::2]) and same(part.selected, obs[::2][sel[::2]])):
                    bad("views", f"{k}[::2] is not aligned")
                mask = v[sel]
                if not (same(plain(mask), obs[idx]) and same(mask.latent, lat[idx]) and len(mask.selected) == det):
                    bad("views", f"{k}[selection] is not aligned")
        obs, lat = m["q"]["fluxes"]
        dist = m["q"]["distances"][0]
        for name, want in (("luminosities_latent", m["q"]["luminosities"][1]), ("fluxes_latent", lat), ("fluxes_observed", obs),
                           ("selected_fluxes_observed", obs[idx]), ("selected_fluxes_latent", lat[idx]), ("selected_distances", dist[idx]),
                           ("hidden_fluxes_observed", obs[non]), ("hidden_distances", dist[non]), ("hidden_fluxes_latent", lat[non])):
            if hasattr(type(pop), name) and not same(plain(getattr(pop, name)), want):
                bad("views", f"{name} is {plain(getattr(pop, name))} expected {want}")
        for name, want in (("ra", np.rad2deg(m["q"]["phi"][0])), ("dec", 90 - np.rad2deg(m["q"]["theta"][0]))):
            v = getattr(pop, name)
            if v.shape != want.shape or not np.allclose(plain(v), want, rtol=1e-12, atol=1e-12):
                bad("values", f"{name} does not belong to the position")
            if len(v.selected) != det:
                bad("views", f"{name} selects {len(v.selected)} of {det}")
        # known distances
        stan = pop.to_stan_data()
        known = m["known"]
        unknown = [i for i in range(det) if i not in set(known.tolist())]
        if list(plain(stan["z_idx"]).astype(int) - 1) != list(known):
            bad("known-distances", f"known indices {plain(stan['z_idx']) - 1} expected {known}")
        if sorted(plain(stan["z_nidx"]).astype(int) - 1) != unknown:
            bad("known-distances", f"unknown indices {plain(stan['z_nidx']) - 1} expected {unknown}")
        kd = dist[idx][known] if det else np.array([])
        if not same(plain(pop.known_distances), kd):
            bad("known-distances", f"known distances {plain(pop.known_distances)} expected {kd}")
        # Stan data
        want = {"N": det, "Nz": len(known), "Nnz": len(unknown), "z_obs": dist[idx], "known_z_obs": kd, "r_obs": dist[idx], "known_r_obs": kd,
                "r_idx": known + 1, "r_nidx": np.array(unknown, dtype=int) + 1, "flux_obs": obs[idx], "flux_sigma": m["flux_sigma"],
                "z_max": m["r_max"], "r_max": m["r_max"], "N_model": m["n_model"], "z_idx": known + 1, "z_nidx": np.array(unknown, dtype=int) + 1}
        for a in m["aux"]:
            want[a + "_obs"] = m["q"]["aux:" + a][0][idx]
        for a, v in m["spaces"].items():
            want[a] = v
        for k, v in want.items():
            if k not in stan:
                bad("stan-data", f"{k} is missing")
            if not same(plain(stan[k]), v):
                bad("stan-data", f"{k} is {plain(stan[k])} expected {v}")
        with np.errstate(all="ignore"):
            if not np.allclose(plain(stan["log_flux_obs"]), np.log10(obs[idx]), rtol=1e-12, atol=1e-12, equal_nan=True):
                bad("stan-data", "log_flux_obs is not the logarithm of the observed fluxes")
        more = set(stan) - set(want) - {"log_flux_obs"}
        wrong = [k for k in more if k in m["aux"] or k.endswith("_obs")]
        if wrong:
            bad("stan-data", f"unexpected {wrong}")

    def shrink(self, sc):
        for l in world.shrink_list(sc["chain"]):
            yield dict(sc, chain=l)
        if len(sc["specs"]) > 1:
            for i in range(len(sc["specs"])):
                yield dict(sc, specs=[sc["specs"][i]])
        for i, s in enumerate(sc["specs"]):
            for t in world.shrink_spec(s):
                yield dict(sc, specs=sc["specs"][:i] + [t] + sc["specs"][i + 1:])


CHECK = C06
