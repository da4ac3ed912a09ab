"""Bit-exact, name-ordered description of a population and comparisons of them."""
import hashlib

import numpy as np


#: whether integer arrays compare equal to floating point ones of the same values
INT_AS_FLOAT = False


def arr(x):
    """Exact text of a numeric array (kind, shape, bytes)."""
    a = np.asarray(x)
    if INT_AS_FLOAT and a.dtype.kind in "iu":
        a = a.astype(np.float64)
    if a.dtype == object:
        return ("obj", repr(a.tolist()))
    if a.dtype.kind == "f":
        a = a.astype(np.float64)
        # every nan is the same value
        if np.isnan(a).any():
            a = a.copy()
            a[np.isnan(a)] = np.nan
        a = a + 0.0 if a.ndim else a
    elif a.dtype.kind in "iu":
        a = a.astype(np.int64)
    elif a.dtype.kind == "b":
        a = a.astype(np.uint8)
    a = np.ascontiguousarray(a)
    return (a.dtype.kind if a.dtype.kind != "u" else "b", a.shape, hashlib.sha1(a.tobytes()).hexdigest()[:20])


def scalar(x):
    if x is None:
        return None
    if isinstance(x, (bool, np.bool_)):
        return ("b", bool(x))
    if isinstance(x, (int, float, np.integer, np.floating)):
        f = float(x)
        return ("n", "nan" if f != f else (f + 0.0).hex())
    if isinstance(x, bytes):
        return ("s", x.decode())
    if isinstance(x, str):
        return ("s", str(x))
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return scalar(x.item())
        return ("a",) + arr(x)
    return ("r", repr(x))


def tree(x):
    if isinstance(x, dict):
        return ("d", tuple(sorted((str(k), tree(v)) for k, v in x.items())))
    if isinstance(x, (list, tuple)):
        return ("l", tuple(tree(v) for v in x))
    return scalar(x)


def _secondary(x):
    """'secondary' of a stored description: names, listed or as keys."""
    if isinstance(x, dict):
        return sorted(str(k) for k in x)
    return sorted(str(k) for k in x)


def description(d):
    """Description of a synth; the list of secondaries of a sampler may be
    stored as the keys of a dictionary."""
    if d is None:
        return None
    d = dict(d)
    aux = {}
    for k, v in dict(d.get("auxiliary samplers", {})).items():
        v = dict(v)
        if "secondary" in v:
            v["secondary"] = _secondary(v["secondary"])
        aux[k] = v
    d["auxiliary samplers"] = aux
    return tree(d)


def variable(v):
    """A SimulatedVariable: observed, latent and selection."""
    return (arr(np.asarray(v).view(np.ndarray)), arr(v.latent), arr(v.selected.view(np.ndarray)), arr(v.non_selected.view(np.ndarray)))


NOT_AUX = {"flux_obs", "log_flux_obs", "z_obs", "known_z_obs", "r_obs", "known_r_obs"}


def aux_names(stan):
    return sorted(k[:-4] for k in stan if k.endswith("_obs") and k not in NOT_AUX)


def fields(pop, with_graph_attrs=False):
    """Everything a population holds, as a dictionary of exact texts."""
    out = {}
    stan = pop.to_stan_data()
    out["n_objects"] = int(pop.n_objects)
    out["n_detections"] = int(pop.n_detections)
    out["n_non_detections"] = int(pop.n_non_detections)
    out["selection"] = arr(np.asarray(pop.selection).astype(bool))
    for q in ("luminosities", "distances", "fluxes", "theta", "phi"):
        out[q] = variable(getattr(pop, q))
    out["known_distances"] = arr(np.asarray(pop.known_distances, dtype=float))
    out["known_idx"] = arr(np.asarray(stan["z_idx"], dtype=int))
    out["unknown_idx"] = arr(np.asarray(stan["z_nidx"], dtype=int))
    out["probability"] = None if pop.probability is None else variable(pop.probability)
    out["flux_sigma"] = scalar(pop.flux_sigma)
    out["truth"] = tree(pop.truth)
    out["spatial_parameters"] = tree(pop.spatial_parameters)
    out["luminosity_parameters"] = tree(pop.luminosity_parameters)
    out["pop_synth"] = description(pop.pop_synth)
    out["r_max"] = scalar(stan["r_max"])
    out["n_model"] = scalar(stan["N_model"])
    for k in ("seed", "name", "spatial_form", "lf_form"):
        out[k] = scalar(getattr(pop, "_" + k, "absent"))
    g = pop.graph
    out["graph"] = None if g is None else (
        bool(g.is_directed()), tuple(sorted(map(str, g.nodes))), tuple(sorted((str(a), str(b)) for a, b in g.edges)))
    if with_graph_attrs and g is not None:
        out["graph_attrs"] = tuple(sorted((str(n), repr(sorted(d.items()))) for n, d in g.nodes(data=True)))
    names = aux_names(stan)
    out["aux_names"] = tuple(names)
    for n in names:
        out["aux:" + n] = variable(getattr(pop, n))
    std = {"N", "Nz", "Nnz", "z_obs", "known_z_obs", "z_idx", "z_nidx", "r_obs", "known_r_obs", "r_idx", "r_nidx",
           "log_flux_obs", "flux_obs", "flux_sigma", "z_max", "r_max", "N_model"}
    for k in sorted(stan):
        if k in std or k in {n + "_obs" for n in names}:
            continue
        out["space:" + k] = arr(stan[k])
    return out


#: what makes up the objects of a survey
OBJECTS = ("n_objects", "n_detections", "selection", "luminosities", "distances", "fluxes", "theta", "phi",
           "known_distances", "known_idx", "unknown_idx", "flux_sigma", "truth", "probability")


def object_fields(f):
    return {k: v for k, v in f.items() if k in OBJECTS or k.startswith("aux:") or k == "aux_names"}


def digest(f):
    return hashlib.sha256(repr(sorted(f.items(), key=lambda kv: kv[0])).encode()).hexdigest()[:24]


def diff(a, b):
    """Names of the fields two descriptions differ in."""
    out = []
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            out.append(k + " (present in one only)")
        elif a[k] != b[k]:
            out.append(k)
    return out


def show(a, b, names, limit=3):
    return "; ".join(f"{k}: {str(a.get(k))[:300]} != {str(b.get(k))[:300]}" for k in [n.split(" ")[0] for n in names[:limit]])
