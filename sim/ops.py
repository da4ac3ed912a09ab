"""Unrelated activity: things a process may do besides the draw under test."""
import copy
import os
import random as py_random

import numpy as np

import popsynth
import world


class Planned(Exception):
    """An injected failure."""


LOG_MODES = ("silence_logs", "quiet_mode", "loud_mode", "debug_mode", "activate_logs", "silence_progress_bars",
             "show_progress_bars", "silence_warnings", "activate_warnings")


def set_progress(flag):
    popsynth.popsynth_config.show_progress = bool(flag)


#: types whose parameters have the same names
SIBLINGS = (("LogNormalDistribution", "Log10NormalDistribution"), ("ParetoDistribution", "SchechterDistribution"))
AUX_SIBLINGS = (("NormalAuxSampler", "LogNormalAuxSampler", "Log10NormalAuxSampler", "SimNode"),
                ("TruncatedLogNormalAuxSampler", "TruncatedLog10NormalAuxSampler"))


def _nudge(rng, params, key):
    v = params[key]
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        # small and towards zero or away from it, which keeps bounds apart
        params[key] = world.r3(v * rng.choice([0.97, 0.9] if key == "max_angle" else [0.97, 1.03, 1.1, 0.9]))


def near(rng, spec):
    """A specification that differs from another one in a single aspect."""
    s = copy.deepcopy(spec)
    sp = s["spatial"]
    kinds = ["r_max", "norm", "spatial", "seed", "draw", "sigma", "selection", "name"]
    if sp["type"] in world.COSMO:
        kinds += ["is_rate"] * 4
    if s["lum"] is not None:
        kinds += ["lum", "lum_type"]
    if s["aux"]:
        kinds += ["aux", "aux", "aux_type", "observed", "drop_selection"]
    k = rng.choice(kinds)
    if k == "is_rate":
        sp["is_rate"] = not sp.get("is_rate", True)
    elif k == "r_max":
        sp["params"]["r_max"] = world.r3(sp["params"]["r_max"] * rng.choice([0.9, 0.7, 1.05]))
    elif k == "norm":
        _nudge(rng, sp["params"], world.NORM[sp["type"]])
    elif k == "spatial":
        rest = [x for x in sp["params"] if x not in ("r_max", world.NORM[sp["type"]])]
        if rest:
            _nudge(rng, sp["params"], rng.choice(rest))
    elif k == "seed":
        s["seed"] = rng.choice([(spec["seed"] + 1) % 2 ** 32, (spec["seed"] ^ 2 ** 31)])
    elif k == "draw":
        s["draw"] = world.gen_draw(rng)
        if "n_samples" in spec["draw"]:
            s["draw"]["n_samples"] = spec["draw"]["n_samples"]
    elif k == "sigma":
        s["draw"]["flux_sigma"] = world.uni(rng, 0.05, 1.0)
    elif k == "selection":
        for key in ("flux_sel", "dist_sel", "spat_sel"):
            s[key] = None
    elif k == "name":
        sp["name"] = "other"
    elif k == "lum" and s["lum"]["params"]:
        _nudge(rng, s["lum"]["params"], rng.choice(sorted(s["lum"]["params"])))
    elif k == "lum_type":
        for group in SIBLINGS:
            if s["lum"]["type"] in group:
                s["lum"]["type"] = rng.choice(group)
    elif k in ("aux", "aux_type", "observed", "drop_selection"):
        n = rng.choice(sorted(s["aux"]))
        a = s["aux"][n]
        if k == "aux" and a["params"]:
            _nudge(rng, a["params"], rng.choice(sorted(a["params"])))
        elif k == "aux_type":
            for group in AUX_SIBLINGS:
                if a["type"] in group:
                    a["type"] = rng.choice(group)
        elif k == "observed":
            if a["type"] != "ViewingAngleSampler" and n != s["derived"]:
                a["observed"] = not a["observed"]
        elif k == "drop_selection":
            a["sel"] = None
        world.keep_positive(a)
    return s


def neighbour(rng, spec):
    """A specification that shares names and types with another one."""
    if rng.random() < 0.6:
        return near(rng, spec)
    s = copy.deepcopy(spec)
    s["seed"] = rng.choice([spec["seed"], 1234, 5, rng.randrange(1, 2 ** 31)])
    d = world.gen_spatial(rng, (spec["spatial"]["type"],))
    if rng.random() < 0.7 and s["route"] == "synth":
        s["spatial"] = d
    if s["lum"] is not None and rng.random() < 0.7 and s["route"] == "synth":
        s["lum"] = world.gen_lum(rng, (spec["lum"]["type"],))
    for a in s["aux"].values():
        if rng.random() < 0.6:
            a["params"] = world.gen_aux_params(rng, a["type"])
    s["draw"] = world.gen_draw(rng)
    return s


def gen_op(rng, spec, kinds=None):
    k = rng.choice(kinds or ["seed", "use", "use", "py_random", "synth", "synth", "neighbour", "neighbour", "fail", "progress",
                             "log", "save_load", "yaml", "same", "bare", "state", "errstate", "gc", "chdir", "thread_draw"])
    if k == "seed":
        return [k, rng.choice([0, 1, spec["seed"], rng.randrange(2 ** 32)])]
    if k == "use":
        return [k, rng.choice(["random", "normal", "poisson", "choice", "shuffle", "rvs"]), rng.randrange(1, 20)]
    if k == "py_random":
        return [k, rng.randrange(1000)]
    if k == "synth":
        return [k, world.gen_spec(rng, target=5)]
    if k in ("neighbour", "save_load", "yaml", "thread_draw"):
        return [k, neighbour(rng, spec) if rng.random() < 0.7 else world.gen_spec(rng, target=5)]
    if k == "fail":
        return [k, neighbour(rng, spec), rng.randrange(0, 4)]
    if k == "progress":
        return [k, rng.random() < 0.5]
    if k == "log":
        return [k, rng.choice(LOG_MODES)]
    if k == "state":
        return [k, rng.randrange(1000)]
    return [k]


def open_spec(spec):
    return world.open_selections(spec)


def fail_draw(w, args, k):
    """Draw with an exception raised at the k-th callback or random call."""
    count = [0]

    def bomb(point, obj):
        count[0] += 1
        if count[0] > k:
            raise Planned()

    old = np.random.normal, np.random.uniform

    def wrap(f):
        def g(*a, **kw):
            bomb("rng", None)
            return f(*a, **kw)
        return g

    world.HOOKS.append(bomb)
    np.random.normal, np.random.uniform = wrap(old[0]), wrap(old[1])
    try:
        world.draw(w, args)
    except Planned:
        return True
    finally:
        world.HOOKS.remove(bomb)
        np.random.normal, np.random.uniform = old
    return False


def apply(op, spec, ctx):
    k = op[0]
    ctx.probe("op_" + k)
    if k == "seed":
        np.random.seed(op[1])
    elif k == "use":
        n = op[2]
        if op[1] == "random":
            np.random.random(n)
        elif op[1] == "normal":
            np.random.normal(size=n)
        elif op[1] == "poisson":
            np.random.poisson(3.3, size=n)
        elif op[1] == "choice":
            np.random.choice(n)
        elif op[1] == "shuffle":
            np.random.shuffle(np.arange(n))
        else:
            import scipy.stats
            scipy.stats.norm.rvs(size=n)
    elif k == "py_random":
        py_random.seed(op[1])
        py_random.random()
    elif k == "state":
        np.random.set_state(np.random.RandomState(op[1]).get_state())
    elif k in ("synth", "neighbour"):
        s = open_spec(op[1])
        w = world.build(s)
        world.draw(w, s["draw"])
    elif k == "thread_draw":
        import threading
        s = open_spec(op[1])
        t = threading.Thread(target=lambda: world.draw(world.build(s), s["draw"]))
        t.start()
        t.join()
    elif k == "fail":
        s = open_spec(op[1])
        w = world.build(s)
        if fail_draw(w, s["draw"], op[2]):
            ctx.fault("failing_draw")
    elif k == "progress":
        set_progress(op[1])
    elif k == "log":
        getattr(popsynth, op[1])()
    elif k == "save_load":
        s = open_spec(op[1])
        pop = world.draw(world.build(s), s["draw"])
        f = os.path.join(ctx.scratch, "op.h5")
        pop.writeto(f)
        popsynth.Population.from_file(f)
        os.remove(f)
    elif k == "yaml":
        s = open_spec(op[1])
        w = world.build(s)
        f = os.path.join(ctx.scratch, "op.yml")
        w.synth.write_to(f)
        popsynth.PopulationSynth.from_file(f)
        os.remove(f)
    elif k == "same":
        # the same configuration, drawn before
        s = open_spec(spec)
        w = world.build(s)
        world.draw(w, s["draw"])
    elif k == "bare":
        for name in world.SPATIAL_TYPES + world.LUM_TYPES:
            world.registered(world.distribution_registry, name)()
        for name in world.AUX_TYPES:
            if name == "ViewingAngleSampler":
                world.registered(world.auxiliary_parameter_registry, name)()
            else:
                world.registered(world.auxiliary_parameter_registry, name)(name="b")
    elif k == "errstate":
        np.seterr(all="ignore")
        np.set_printoptions(precision=3)
    elif k == "gc":
        import gc
        gc.collect()
    elif k == "chdir":
        d = os.path.join(ctx.scratch, "elsewhere")
        os.makedirs(d, exist_ok=True)
        os.chdir(d)
    else:
        raise KeyError(k)


def shrink_op(op):
    """Simpler versions of an operation that carries a specification."""
    if len(op) > 1 and isinstance(op[1], dict):
        for s in world.shrink_spec(op[1]):
            yield [op[0], s] + op[2:]
