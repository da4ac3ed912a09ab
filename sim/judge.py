"""What a survey must look like, recomputed independently of popsynth."""
import math

import numpy as np

import world
from engine import Violation

# direction of the north galactic pole (J2000, degrees)
NGP = (192.8594812065348, 27.12825118085622)


def galactic_latitude(theta, phi):
    """Degrees, from the polar angle and azimuth of ICRS positions."""
    theta, phi = np.asarray(theta, dtype=float), np.asarray(phi, dtype=float)
    dec = math.pi / 2 - theta
    a, d = math.radians(NGP[0]), math.radians(NGP[1])
    s = np.sin(d) * np.sin(dec) + np.cos(d) * np.cos(dec) * np.cos(phi - a)
    return np.degrees(np.arcsin(np.clip(s, -1, 1)))


class Plain(object):
    """Plain arrays of a population."""

    def __init__(self, pop, aux):
        self.n = int(pop.n_objects)
        self.flux = np.array(pop.fluxes)
        self.flux_latent = np.array(pop.fluxes.latent)
        self.lum = np.array(pop.luminosities)
        self.dist = np.array(pop.distances)
        self.theta = np.array(pop.theta)
        self.phi = np.array(pop.phi)
        self.selection = np.array(pop.selection)
        self.obs = {n: np.array(getattr(pop, n)) for n in aux}
        self.latent = {n: np.array(getattr(pop, n).latent) for n in aux}
        self.known = np.array(pop.known_distances, dtype=float)
        stan = pop.to_stan_data()
        self.known_idx = np.array(stan["z_idx"]) - 1
        self.unknown_idx = np.array(stan["z_nidx"]) - 1


def get(params, cls_defaults, name):
    return params.get(name, cls_defaults.get(name))


DEFAULTS = {"BernoulliSelection": {"probability": 0.5}, "SimSelection": {"k": 3.0, "cut": 0.3},
            "SimSpatialSelection": {"lo": 0.5, "hi": 2.5}}


def accept(sel, values, plain=None, rows=None):
    """(certainly accepted, possibly accepted) of a selection, or probabilities
    for the ones that are random: returns (must, may, prob)."""
    t = sel["type"]
    p = dict(DEFAULTS.get(t, {}), **sel["params"])
    n = len(values) if values is not None else (plain.n if rows is None else len(rows))
    if t == "UnitySelection":
        x = np.ones(n, dtype=bool)
        return x, x, None
    if t in ("LowerBound", "HardFluxSelection"):
        x = np.array([v >= p["boundary"] for v in values], dtype=bool)
        return x, x, None
    if t == "UpperBound":
        x = np.array([v <= p["boundary"] for v in values], dtype=bool)
        return x, x, None
    if t == "BoxSelection":
        x = np.array([p["vmin"] <= v <= p["vmax"] for v in values], dtype=bool)
        return x, x, None
    if t == "SimSelection":
        x = world.SimSelection.accept(values, p["k"], p["cut"])
        return x, x, None
    if t == "SimSpatialSelection":
        x = (plain.theta >= p["lo"]) & (plain.theta <= p["hi"])
        return x, x, None
    if t == "DistanceSelection":
        x = (plain.dist >= p["min_distance"]) & (plain.dist <= p["max_distance"])
        return x, x, None
    if t == "GalacticPlaneSelection":
        b = np.abs(galactic_latitude(plain.theta, plain.phi))
        return b >= p["b_limit"] + 1e-6, b >= p["b_limit"] - 1e-6, None
    if t == "BernoulliSelection":
        pr = float(p["probability"])
        return np.full(n, pr >= 1), np.full(n, pr > 0), np.full(n, pr)
    if t in ("SoftSelection", "SoftFluxSelection"):
        x = p["strength"] * (np.log10(values) - np.log10(p["boundary"]))
        pr = 1.0 / (1.0 + np.exp(-np.clip(x, -700, 700)))
        return pr > 1 - 1e-12, pr > 1e-12, pr
    raise KeyError(t)


def parts(spec, plain):
    """(label, selection, values) of everything that decides detection."""
    if spec.get("flux_sel"):
        yield "flux", spec["flux_sel"], plain.flux
    if spec.get("spat_sel"):
        yield "spat", spec["spat_sel"], None
    for n, a in spec["aux"].items():
        s = a.get("sel")
        if s:
            use = s.get("use") or "obs"
            values = {"obs": plain.obs[n], "dist": plain.dist, "lum": plain.lum}[use]
            yield "aux:" + n, s, values


def users(spec):
    """How many places use each shared selector (by its share key)."""
    out = {}
    for label, s in [("flux", spec.get("flux_sel")), ("dist", spec.get("dist_sel")), ("spat", spec.get("spat_sel"))] + [
            ("aux:" + n, a.get("sel")) for n, a in spec["aux"].items()]:
        if s and s.get("share") is not None:
            out[s["share"]] = out.get(s["share"], 0) + 1
    return out


def outcome(handle, n):
    """The recorded outcome of a selector, if it holds one of that size."""
    if handle is None:
        return None
    try:
        x = np.asarray(handle.selection)
    except Exception:
        return None
    if x.shape != (n,):
        return None
    return x.astype(bool)


def detection(spec, pop, handles, ctx=None):
    """Raises Violation if the detected objects are not the ones that pass all
    selections.  handles: label -> selector."""
    p = Plain(pop, spec["aux"])
    n = p.n
    if p.selection.dtype != bool or p.selection.shape != (n,):
        raise Violation("selection-shape", f"selection is {p.selection.dtype} {p.selection.shape} for {n} objects")
    used = users(spec)
    must = np.ones(n, dtype=bool)
    may = np.ones(n, dtype=bool)
    reasons = []
    exact = True
    for label, s, values in parts(spec, p):
        a, b, prob = accept(s, values, p)
        if ctx is not None:
            ctx.probe("sel_" + s["type"])
        if prob is not None:
            single = s.get("share") is None or used[s["share"]] == 1
            got = outcome(handles.get(label), n) if single else None
            if got is not None:
                if (a & ~got).any() or (got & ~b).any():
                    raise Violation("selection-outcome", f"{label}: {s}: outcome impossible for its probability")
                a = b = got
            else:
                exact = False
        must &= a
        may &= b
        reasons.append((label, s, a, b))
    missing = must & ~p.selection
    extra = p.selection & ~may
    for bad, what in ((extra, "object-selected-though-rejected"), (missing, "object-rejected-though-passing")):
        if bad.any():
            i = int(np.where(bad)[0][0])
            why = [(label, s["type"], s["params"], bool(a[i]), bool(b[i])) for label, s, a, b in reasons]
            raise Violation(what, f"object {i} of {n} ({int(bad.sum())} like it): selected={bool(p.selection[i])}, "
                                  f"flux {p.flux[i]!r} distance {p.dist[i]!r} aux { {k: float(v[i]) for k, v in p.obs.items()} }: {why}")
    # known distances
    det = np.where(p.selection)[0]
    m = len(det)
    ki, ui = p.known_idx.astype(int), p.unknown_idx.astype(int)
    if sorted(list(ki) + list(ui)) != list(range(m)):
        raise Violation("known-distances", f"known {ki} and unknown {ui} indices do not partition {m} detected objects")
    if len(p.known) != len(ki) or not np.array_equal(p.known, p.dist[det][ki]):
        raise Violation("known-distances", "known distances are not the distances of those objects")
    known = np.zeros(m, dtype=bool)
    known[ki] = True
    s = spec.get("dist_sel")
    if s is None:
        a = b = np.ones(m, dtype=bool)
    else:
        a, b, prob = accept(s, p.dist[det], p)
        if prob is not None:
            single = s.get("share") is None or used[s["share"]] == 1
            got = outcome(handles.get("dist"), m) if single else None
            if got is not None:
                a = b = got
    if (a & ~known).any() or (known & ~b).any():
        i = int(np.where((a & ~known) | (known & ~b))[0][0])
        raise Violation("known-distances", f"detected object {i} at {p.dist[det][i]!r}: known={bool(known[i])} but the distance selection is {s}")
    return p, exact
