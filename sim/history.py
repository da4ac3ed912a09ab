"""Histories of operations on synths and the parts attached to them, with a
model of the current configuration.

The model (plain data) is what a user believes the configuration to be; the
real side holds the popsynth objects.  `Model.spec(name)` is the specification
from which a new synth with that configuration can be built.
"""
import copy
import pickle

import world

NO_LUM = ("SimNode", "SimDistNode", "SimSkyNode", "NormalAuxSampler", "LogNormalAuxSampler", "DeltaAuxSampler",
          "PowerLawAuxSampler", "TruncatedNormalAuxSampler")
WITH_LUM = NO_LUM + ("SimLumNode", "SimAllNode")
USES_LUM = ("SimLumNode", "SimAllNode")


class Model(object):
    def __init__(self):
        self.dists = {}       # id -> {"type", "params", ...}
        self.nodes = {}       # id -> {"name", "type", "observed", "params", "secondary": {name: id}, "sel": id}
        self.sels = {}        # id -> {"type", "params", "use"}
        self.synths = {}      # name -> {"spatial", "lum", "seed", "route", "roots": [ids], "derived": id, flux_sel..., "spaces"}
        self.was_secondary = set()
        self.counter = 0

    def new_id(self, prefix):
        self.counter += 1
        return f"{prefix}{self.counter}"

    # ---- from a specification

    def load(self, name, spec):
        """Adds the synth of a specification under a name."""
        s = {"seed": spec["seed"], "route": spec["route"], "spaces": copy.deepcopy(spec["spaces"])}
        s["spatial"] = "d:" + name + ":spatial"
        self.dists[s["spatial"]] = copy.deepcopy(spec["spatial"])
        s["lum"] = None
        if spec["lum"] is not None:
            s["lum"] = "d:" + name + ":lum"
            self.dists[s["lum"]] = copy.deepcopy(spec["lum"])
        shares = {}

        def sel(x, label):
            if x is None:
                return None
            key = x.get("share")
            if key is not None and key in shares:
                return shares[key]
            i = "s:" + name + ":" + label
            self.sels[i] = {"type": x["type"], "params": dict(x["params"]), "use": x.get("use")}
            if key is not None:
                shares[key] = i
            return i

        for k in ("flux_sel", "dist_sel", "spat_sel"):
            s[k] = sel(spec.get(k), k)
        ids = {}
        for n, a in spec["aux"].items():
            ids[n] = "n:" + name + ":" + n
            self.nodes[ids[n]] = {"name": n, "type": a["type"], "observed": a["observed"], "params": dict(a["params"]),
                                  "secondary": {}, "sel": sel(a.get("sel"), n)}
        for n, a in spec["aux"].items():
            for x in a["secondary"]:
                self.nodes[ids[n]]["secondary"][x] = ids[x]
                self.was_secondary.add(ids[x])
        s["roots"] = [ids[n] for n in spec["roots"] if n != spec.get("derived")]
        s["derived"] = ids[spec["derived"]] if spec.get("derived") else None
        s["derived_pos"] = spec["roots"].index(spec["derived"]) if spec.get("derived") else 0
        self.synths[name] = s

    # ---- queries

    def reach(self, node):
        out = []
        stack = [node]
        while stack:
            n = stack.pop()
            if n not in out:
                out.append(n)
                stack += list(self.nodes[n]["secondary"].values())
        return out

    def members(self, name):
        s = self.synths[name]
        out = []
        for r in s["roots"] + ([s["derived"]] if s["derived"] else []):
            for n in self.reach(r):
                if n not in out:
                    out.append(n)
        return out

    def ancestors(self, node):
        return [n for n in self.nodes if node in self.reach(n)]

    def valid(self, name):
        s = self.synths[name]
        if s["lum"] is None and s["derived"] is None:
            return False
        names = [self.nodes[n]["name"] for n in self.members(name)]
        if len(set(names)) != len(names):
            return False
        under = set(self.reach(s["derived"])) if s["derived"] else set()
        for n in under:
            if self.nodes[n]["type"] in USES_LUM:
                return False
            i = self.nodes[n]["sel"]
            if i and self.sels[i]["use"] == "lum":
                return False
        for n in s["roots"]:
            if n in self.was_secondary:
                return False
        return True

    def spec(self, name):
        s = self.synths[name]

        def sel(i):
            if i is None:
                return None
            return dict(copy.deepcopy(self.sels[i]), share=i)

        out = {"seed": s["seed"], "route": s["route"], "spaces": copy.deepcopy(s["spaces"]),
               "spatial": copy.deepcopy(self.dists[s["spatial"]]),
               "lum": None if s["lum"] is None else copy.deepcopy(self.dists[s["lum"]])}
        for k in ("flux_sel", "dist_sel", "spat_sel"):
            out[k] = sel(s[k])
        out["aux"] = {}
        for n in self.members(name):
            x = self.nodes[n]
            out["aux"][x["name"]] = {"type": x["type"], "observed": x["observed"], "params": dict(x["params"]),
                                     "secondary": list(x["secondary"]), "sel": sel(x["sel"])}
        out["roots"] = [self.nodes[n]["name"] for n in s["roots"]]
        out["derived"] = None
        if s["derived"]:
            out["derived"] = self.nodes[s["derived"]]["name"]
            out["roots"].insert(min(s["derived_pos"], len(out["roots"])), out["derived"])
        return out

    # ---- operations; each returns False if it does not apply any more

    def apply(self, op):
        return getattr(self, "op_" + op[0])(*op[1:])

    def op_draw(self, name, args):
        return name in self.synths and self.valid(name)

    def op_fail(self, name, args, k):
        return name in self.synths and self.valid(name)

    def op_peek(self, name, what):
        return name in self.synths and self.valid(name)

    def op_params(self, kind, ident, params):
        box = {"d": self.dists, "n": self.nodes, "s": self.sels}[kind]
        if ident not in box:
            return False
        box[ident]["params"].update(params)
        return True

    def op_select(self, name, slot, ident, s):
        """Give a synth a selection: a new one, an existing one."""
        if name not in self.synths:
            return False
        if s is not None:
            self.sels[ident] = copy.deepcopy(s)
        elif ident not in self.sels:
            return False
        self.synths[name][slot] = ident
        return True

    def op_node_select(self, node, ident, s):
        if node not in self.nodes:
            return False
        if s is not None:
            self.sels[ident] = copy.deepcopy(s)
        elif ident not in self.sels:
            return False
        self.nodes[node]["sel"] = ident
        return True

    def op_add(self, name, ident, node):
        """Add a sampler to a synth: a new one, or one that exists already."""
        if name not in self.synths:
            return False
        s = self.synths[name]
        if node is None:
            if ident not in self.nodes or ident in self.was_secondary:
                return False
            node = self.nodes[ident]
        elif ident in self.nodes:
            return False
        derived = node["type"].startswith("SimDerived")
        if not derived and node["name"] in [self.nodes[r]["name"] for r in s["roots"]]:
            return False
        taken = {self.nodes[n]["name"] for n in self.members(name)
                 if not (derived and s["derived"] == n)}
        mine = {node["name"]} if ident not in self.nodes else {self.nodes[n]["name"] for n in self.reach(ident)}
        if mine & taken:
            return False
        if ident not in self.nodes:
            self.nodes[ident] = copy.deepcopy(node)
        if derived:
            s["derived"] = ident
            s["derived_pos"] = len(s["roots"])
        else:
            s["roots"].append(ident)
        return True

    def op_secondary(self, parent, ident, node):
        """Attach a secondary: new, existing, or one taking another's name."""
        if parent not in self.nodes:
            return False
        if node is None:
            if ident not in self.nodes:
                return False
            if parent in self.reach(ident):
                return False
        elif ident in self.nodes:
            return False
        name = self.nodes[ident]["name"] if node is None else node["name"]
        for s in self.synths.values():
            if ident in s["roots"] or s["derived"] == ident:
                return False
        if node is not None:
            self.nodes[ident] = copy.deepcopy(node)
        old = self.nodes[parent]["secondary"].get(name)
        self.nodes[parent]["secondary"][name] = ident
        # nobody else may have a different sampler of that name
        for s in self.synths:
            names = {}
            for n in self.members(s):
                if names.setdefault(self.nodes[n]["name"], n) != n:
                    if old is None:
                        del self.nodes[parent]["secondary"][name]
                    else:
                        self.nodes[parent]["secondary"][name] = old
                    if node is not None:
                        del self.nodes[ident]
                    return False
        self.was_secondary.add(ident)
        return True

    def op_clean(self, name, reset):
        if name not in self.synths:
            return False
        s = self.synths[name]
        s["roots"] = []
        s["derived"] = None
        for k in ("flux_sel", "dist_sel", "spat_sel"):
            s[k] = None
        return True

    def op_space(self, name, space, start, stop, log):
        if name not in self.synths:
            return False
        sp = self.synths[name]["spaces"]
        sp[:] = [x for x in sp if x[0] != space] + [[space, start, stop, log]]
        return True

    def op_synth(self, name, like, share_spatial, share_lum, roots, derived, seed):
        """Another synth that uses parts of an existing one."""
        if name in self.synths or like not in self.synths:
            return False
        o = self.synths[like]
        s = {"seed": seed, "route": "synth", "spaces": [], "flux_sel": None, "dist_sel": None, "spat_sel": None,
             "roots": [r for r in roots if r in self.nodes and r not in self.was_secondary], "derived": None, "derived_pos": 0}
        s["spatial"] = o["spatial"] if share_spatial is None else self.new_dist("d:" + name + ":spatial", share_spatial)
        s["lum"] = o["lum"] if share_lum is None else self.new_dist("d:" + name + ":lum", share_lum)
        if derived and o["derived"]:
            s["derived"] = o["derived"]
        self.synths[name] = s
        return True

    def op_clone(self, name, new, how):
        """A copy of a synth and of all its parts."""
        if name not in self.synths or new in self.synths:
            return False
        ids = self.parts(name, new)
        own = lambda i: None if i is None else ids[i]
        for box in (self.dists, self.nodes, self.sels):
            for i in [x for x in box if x in ids]:
                box[ids[i]] = copy.deepcopy(box[i])
        for i in ids:
            n = self.nodes.get(ids[i])
            if n is not None:
                n["secondary"] = {k: ids[x] for k, x in n["secondary"].items()}
                n["sel"] = own(n["sel"])
                if i in self.was_secondary:
                    self.was_secondary.add(ids[i])
        s = copy.deepcopy(self.synths[name])
        for k in ("spatial", "lum", "flux_sel", "dist_sel", "spat_sel", "derived"):
            s[k] = own(s[k])
        s["roots"] = [ids[n] for n in s["roots"]]
        self.synths[new] = s
        return True

    def parts(self, name, new):
        """Identifiers of the parts of a synth, and of their copies."""
        s = self.synths[name]
        nodes = self.members(name)
        used = [s[k] for k in ("spatial", "lum", "flux_sel", "dist_sel", "spat_sel")] + nodes + [self.nodes[n]["sel"] for n in nodes]
        return {i: new + "/" + i for i in dict.fromkeys(used) if i is not None}

    def new_dist(self, i, d):
        self.dists[i] = copy.deepcopy(d)
        return i

    # ---- random operation

    #: whether synths are copied
    clones = True

    def random_op(self, rng, draws=3, size=None):
        names = list(self.synths)
        name = rng.choice(names)
        s = self.synths[name]
        if self.clones and len(names) < 4 and rng.random() < 0.05:
            return ["clone", name, "C%d" % len(names), rng.choice(["deepcopy", "pickle"])]
        k = rng.choice(["draw"] * draws + ["fail", "params", "params", "params", "select", "node_select", "add", "secondary",
                                           "add", "secondary", "select", "node_select", "space", "synth", "peek"]
                       + (["clean"] if rng.random() < 0.5 else []))
        if k == "draw":
            return [k, name, world.gen_draw(rng, size)]
        if k == "fail":
            return [k, name, world.gen_draw(rng, size), rng.randrange(8)]
        if k == "peek":
            return [k, name, rng.choice(["repr", "graph", "to_dict", "params", "truth"])]
        if k == "params":
            kind = rng.choice(["d", "d", "n", "n", "s"])
            box = {"d": self.dists, "n": self.nodes, "s": self.sels}[kind]
            if not box:
                kind, box = "d", self.dists
            ident = rng.choice(sorted(box))
            t = box[ident]["type"]
            if kind == "d":
                if t in world.SPATIAL_TYPES:
                    p = world.gen_spatial(rng, (t,))["params"]
                    if rng.random() < 0.4:
                        n = world.NORM[t]
                        old = box[ident]["params"].get(n)
                        p = {n: world.r3(old * rng.uniform(0.3, 1.5))} if old is not None else p
                    elif rng.random() < 0.3 and t not in world.COSMO:
                        old = box[ident]["params"].get("r_max")
                        p = {"r_max": world.r3(old * rng.uniform(0.6, 1.1))}
                else:
                    p = world.gen_lum(rng, (t,))["params"]
                    p = dict(rng.sample(sorted(p.items()), rng.randrange(1, len(p) + 1)))
            elif kind == "n":
                p = world.gen_aux_params(rng, t)
                if p:
                    p = dict(rng.sample(sorted(p.items()), rng.randrange(1, len(p) + 1)))
            else:
                p = self.sel_params(rng, t)
            return ["params", kind, ident, p]
        if k == "select":
            slot = rng.choice(["flux_sel", "flux_sel", "dist_sel", "spat_sel"])
            have = [x[slot] for x in self.synths.values() if x[slot]]
            if have and rng.random() < 0.3:
                return [k, name, slot, rng.choice(sorted(set(have))), None]
            return [k, name, slot, self.new_id("s"), self.new_sel(rng, slot)]
        if k == "node_select":
            if not self.nodes:
                return self.random_op(rng, draws, size)
            n = rng.choice(sorted(self.nodes))
            have = sorted({x["sel"] for x in self.nodes.values() if x["sel"] and self.sels[x["sel"]]["use"] in ("obs", "dist", "lum")
                           and self.sels[x["sel"]]["type"] not in ("SoftSelection",)})
            if have and rng.random() < 0.5:
                return [k, n, rng.choice(have), None]
            return [k, n, self.new_id("s"), self.new_sel(rng, "obs")]
        if k in ("add", "secondary"):
            free = sorted(n for n in self.nodes if n not in self.was_secondary and n not in s["roots"] and n != s["derived"])
            secs = sorted(self.was_secondary & set(self.nodes))
            if k == "add":
                if free and rng.random() < 0.6:
                    return [k, name, rng.choice(free), None]
                return [k, name, self.new_id("n"), self.new_node(rng, True)]
            if not self.nodes:
                return self.random_op(rng, draws, size)
            parent = rng.choice(sorted(self.nodes))
            r = rng.random()
            if r < 0.3 and secs:
                return [k, parent, rng.choice(secs), None]
            if r < 0.5 and free:
                return [k, parent, rng.choice(free), None]
            node = self.new_node(rng, False)
            if rng.random() < 0.3 and self.nodes[parent]["secondary"]:
                node["name"] = rng.choice(sorted(self.nodes[parent]["secondary"]))
            return [k, parent, self.new_id("n"), node]
        if k == "clean":
            return [k, name, rng.random() < 0.5]
        if k == "space":
            return [k, name, rng.choice(["g1", "g2"]), world.uni(rng, 0.1, 1), world.uni(rng, 2, 50), rng.random() < 0.5]
        if k == "synth":
            if len(names) >= 3:
                return self.random_op(rng, draws, size)
            new_s = None if rng.random() < 0.5 else world.gen_spatial(rng)
            new_l = world.gen_lum(rng) if rng.random() < 0.6 or s["lum"] is None else None
            roots = [r for r in s["roots"] if rng.random() < 0.7]
            return [k, "B%d" % len(names), name, new_s, new_l, roots, rng.random() < 0.5, rng.choice([s["seed"], rng.randrange(1000)])]

    def sel_params(self, rng, t):
        if t in ("LowerBound", "UpperBound", "HardFluxSelection"):
            return {"boundary": world.uni(rng, 0, 3)}
        if t == "BoxSelection":
            return {"vmin": world.uni(rng, -2, 1), "vmax": world.uni(rng, 1.5, 20)}
        if t in ("SoftSelection", "SoftFluxSelection"):
            return {"boundary": world.uni(rng, 0.1, 3), "strength": world.uni(rng, 0.5, 10)}
        if t == "BernoulliSelection":
            return {"probability": rng.choice([0.0, 1.0, world.uni(rng, 0.1, 0.9)])}
        if t == "SimSelection":
            return {"k": world.uni(rng, 0.5, 8), "cut": world.uni(rng, 0.05, 0.7)}
        if t == "SimSpatialSelection":
            return {"lo": world.uni(rng, 0.1, 1), "hi": world.uni(rng, 1.5, 3)}
        if t == "GalacticPlaneSelection":
            return {"b_limit": world.uni(rng, 1, 50)}
        if t == "DistanceSelection":
            return {"min_distance": 0.0, "max_distance": world.uni(rng, 0.5, 10)}
        return {}

    def new_sel(self, rng, slot):
        if slot == "spat_sel":
            t, use = "SimSpatialSelection", None
        elif slot == "flux_sel":
            t = rng.choice(["HardFluxSelection", "SimSelection", "BernoulliSelection", "SoftFluxSelection", "UnitySelection"])
            use = "flux" if t == "SimSelection" else None
        elif slot == "dist_sel":
            t = rng.choice(["LowerBound", "UpperBound", "SimSelection", "BernoulliSelection", "UnitySelection"])
            use = "dist" if t in ("LowerBound", "UpperBound", "SimSelection") else None
        else:
            t = rng.choice(["LowerBound", "UpperBound", "BoxSelection", "SimSelection", "BernoulliSelection", "UnitySelection"])
            use = rng.choice(["obs"] * 4 + ["dist", "lum"]) if t not in ("BernoulliSelection", "UnitySelection") else None
        return {"type": t, "params": self.sel_params(rng, t), "use": use}

    def new_node(self, rng, root):
        if root and rng.random() < 0.15:
            t = rng.choice(["SimDerived", "SimDerivedDist"])
        else:
            t = rng.choice(WITH_LUM)
        names = ["new%d" % i for i in range(4)] + [n["name"] for n in self.nodes.values() if n["name"] != "va"]
        return {"name": "dl2" if t.startswith("SimDerived") else rng.choice(names), "type": t,
                "observed": not t.startswith("SimDerived") and rng.random() < 0.5,
                "params": world.gen_aux_params(rng, t), "secondary": {}, "sel": None}


def gen(rng, steps, draws=3, size=None, clones=True, **kw):
    """(initial specification, operations); the last operation of every synth
    is up to the caller."""
    spec = world.gen_spec(rng, **kw)
    m = Model()
    m.clones = clones
    m.load("A", spec)
    # selections of the initial synth are resolved when the run starts, the
    # model only needs their identities here
    ops = []
    for _ in range(steps):
        op = m.random_op(rng, draws, size)
        if m.apply(op):
            ops.append(op)
    return spec, ops, list(m.synths)


class Real(object):
    """The popsynth objects of a model."""

    def __init__(self):
        self.dists = {}
        self.nodes = {}
        self.sels = {}
        self.synths = {}

    def load(self, model, name, spec):
        """Build a synth through world.build and index its parts by the
        model's identifiers."""
        w = world.build(spec)
        m = model.synths[name]
        self.synths[name] = w.synth
        self.dists[m["spatial"]] = w.spatial
        if m["lum"]:
            self.dists[m["lum"]] = w.lum
        for n in model.members(name):
            self.nodes[n] = w.nodes[model.nodes[n]["name"]]
            if model.nodes[n]["sel"]:
                self.sels[model.nodes[n]["sel"]] = w.selectors["aux:" + model.nodes[n]["name"]]
        for slot, label in (("flux_sel", "flux"), ("dist_sel", "dist"), ("spat_sel", "spat")):
            if m[slot]:
                self.sels[m[slot]] = w.selectors[label]

    def selector(self, ident, s):
        if ident not in self.sels:
            self.sels[ident] = world.build_selector(s)
        return self.sels[ident]

    def node(self, ident, x):
        if ident not in self.nodes:
            self.nodes[ident] = world.build_sampler(x["name"], x)
        return self.nodes[ident]

    def apply(self, op, model):
        """model: the model after the operation."""
        k = op[0]
        if k == "params":
            box = {"d": self.dists, "n": self.nodes, "s": self.sels}[op[1]]
            for p, v in op[3].items():
                setattr(box[op[2]], p, v)
        elif k == "select":
            sel = self.selector(op[3], op[4])
            fn = {"flux_sel": "set_flux_selection", "dist_sel": "set_distance_selection", "spat_sel": "add_spatial_selector"}[op[2]]
            getattr(self.synths[op[1]], fn)(sel)
        elif k == "node_select":
            self.nodes[op[1]].set_selection_probability(self.selector(op[2], op[3]))
        elif k == "add":
            self.synths[op[1]].add_observed_quantity(self.node(op[2], op[3]))
        elif k == "secondary":
            self.nodes[op[1]].set_secondary_sampler(self.node(op[2], op[3]))
        elif k == "clean":
            self.synths[op[1]].clean(reset=op[2])
        elif k == "space":
            self.synths[op[1]].add_model_space(op[2], op[3], op[4], log=op[5])
        elif k == "synth":
            m = model.synths[op[1]]
            for d in (m["spatial"], m["lum"]):
                if d is not None and d not in self.dists:
                    self.dists[d] = world.build_distribution(model.dists[d])
            import popsynth
            synth = popsynth.PopulationSynth(
                self.dists[m["spatial"]], luminosity_distribution=None if m["lum"] is None else self.dists[m["lum"]], seed=m["seed"])
            self.synths[op[1]] = synth
            if m["derived"]:
                synth.add_observed_quantity(self.nodes[m["derived"]])
            for r in m["roots"]:
                synth.add_observed_quantity(self.nodes[r])
        elif k == "clone":
            # `model` has the copy already; its identifiers lead back
            new = op[2]
            pairs = [(box, i[len(new) + 1:], i) for box, there in ((self.dists, model.dists), (self.nodes, model.nodes), (self.sels, model.sels))
                     for i in there if i.startswith(new + "/")]
            old = (self.synths[op[1]], [box[i] for box, i, _ in pairs])
            self.synths[new], parts = copy.deepcopy(old) if op[3] == "deepcopy" else pickle.loads(pickle.dumps(old))
            for (box, _, i), x in zip(pairs, parts):
                box[i] = x
        else:
            raise KeyError(k)


# There is no public way to some parts of a rebuilt synth; they are looked for
# by what they are.

def held_samplers(synth):
    """The samplers a synth holds itself, by name."""
    import popsynth
    out = {}
    for v in vars(synth).values():
        for x in (list(v.values()) if isinstance(v, dict) else list(v) if isinstance(v, (list, tuple, set)) else [v]):
            if isinstance(x, (popsynth.AuxiliarySampler, popsynth.DerivedLumAuxSampler)):
                out[x.name] = x
    return out


def held_selector(synth, slot):
    word = {"flux_sel": "flux", "dist_sel": "dist", "spat_sel": "spat"}[slot]
    for k, v in vars(synth).items():
        if word in k and hasattr(v, "select") and hasattr(v, "draw"):
            return v
