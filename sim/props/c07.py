"""C07: a saved population reloads as the same population."""
import copy
import os
import pathlib
import pickle

import h5py
import numpy as np

import canon
import ops
import popsynth
import world
from engine import Check, Violation

FILES = ("a.h5", "b.h5", "sub/c.h5", "d e.hdf5", "ü.h5", "noext")
GROUPS = ("g1", "g2", "pop", "x y", "deep/er", "deep/est", "ä", "0", "g1/inner")
#: what a population keeps at the top of its file
RESERVED = ("distances", "truth", "spatial_params", "popsynth")
#: ways to another population with the same contents
COPIES = ("copy", "deepcopy", "deepcopy", "process", "process") + tuple("pickle %d" % i for i in range(pickle.HIGHEST_PROTOCOL + 1))


def scribble(pop):
    """Change what a population holds."""
    for v in [pop.fluxes, pop.luminosities, pop.distances, pop.theta, pop.phi] + [getattr(pop, n) for n in canon.aux_names(pop.to_stan_data())]:
        if len(v):
            for a in (v.latent, v):
                np.asarray(a)[:] = -7
    if pop.truth:
        for d in pop.truth.values():
            d.clear()
    if pop.graph is not None:
        pop.graph.add_edge("nothing", "else")


class C07(Check):
    cid = "C07"
    level = "exploration"
    technique = "seeded simulation of histories of writes, additions, overwrites, renames and reloads against a model of every file"
    rule = ("a run draws populations of random synths and applies a random history of file operations to several files and "
            "groups; everything every file should hold is reloaded and compared bit for bit after each change and at the end; "
            "non-trivial if at least one population with objects was reloaded; distinct by configuration shape and history")
    state_measure = "distinct (kinds of operations so far, groups in the file, objects and detections capped at 3)"
    real = ["popsynth's HDF5 storage", "h5py and HDF5 on real files in a scratch directory", "drawing"]
    stub = ["simulated user samplers, selectors and distributions"]
    assumptions = ["attributes of graph nodes are not part of the saved graph", "descriptions compare up to how lists of secondaries are stored"]
    quick_n = 800
    thorough_n = 30000

    def gen(self, rng, index, tier):
        specs = [world.gen_spec(rng, target=rng.choice([0.3, 2, 5, 12]), sel_prob=rng.choice([0.1, 0.5, 0.8])) for _ in range(rng.choice([1, 2, 2, 3]))]
        hist = []
        for i in range(len(specs)):
            hist.append(["draw", i, world.gen_draw(rng, rng.choice([None, None, 3, 9]))])
        files = rng.sample(FILES, rng.choice([1, 1, 2, 3]))
        groups = rng.sample(GROUPS, rng.choice([2, 3, 5]))
        for f in files:
            if rng.random() < 0.7:
                hist.append(["write", rng.randrange(9), f, "str"] if rng.random() < 0.8 else ["empty_file", f])
        for _ in range(rng.choice([2, 4, 6, 9, 14])):
            k = rng.choice(["write", "write", "add", "add", "add", "add", "load", "load", "sub", "draw", "delete", "rename", "foreign", "link",
                            "chdir", "clash", "missing", "read_all", "empty_file", "twice", "copy", "copy"])
            f = rng.choice(files)
            if k == "draw":
                hist.append([k, rng.randrange(len(specs)), world.gen_draw(rng, rng.choice([None, None, 3, 9]))])
            elif k in ("write", "twice"):
                hist.append([k, rng.randrange(9), f, rng.choice(["str", "str", "path", "abs"])])
            elif k == "add":
                hist.append([k, rng.randrange(9), f, rng.choice(groups), rng.choice(["str", "str", "path", "abs"])])
            elif k == "clash":
                hist.append([k, rng.randrange(9), f, rng.choice(RESERVED)])
            elif k == "load":
                hist.append([k, f, rng.randrange(9)])
            elif k == "copy":
                hist.append([k, rng.randrange(9), rng.choice(COPIES)])
            elif k == "sub":
                hist.append([k, rng.randrange(9), rng.random() < 0.6])
            elif k in ("rename", "link"):
                hist.append([k, f, rng.choice(FILES)])
            elif k == "missing":
                hist.append([k, rng.randrange(9), f, rng.choice(groups)])
            else:
                hist.append([k, f])
        return {"specs": specs, "ops": hist, "fork": rng.random() < 0.3}

    # a model of a file: {"root": fields or None, "groups": {name: fields}, "foreign": bool}

    def run(self, sc, ctx):
        specs = [world.resolve(s, ctx) for s in sc["specs"]]
        base = ctx.scratch
        os.makedirs(os.path.join(base, "sub"), exist_ok=True)
        os.makedirs(os.path.join(base, "w", "sub"), exist_ok=True)
        self.fork = sc["fork"]
        self.ctx = ctx
        synths, pops, files = {}, [], {}
        self.seen = 0
        kinds = []

        def pick(i):
            return pops[i % len(pops)]

        def where(f, how="abs"):
            p = os.path.join(base, f)
            if how == "str":
                return os.path.relpath(p)
            return pathlib.Path(p) if how == "path" else p

        for op in sc["ops"]:
            k = op[0]
            ctx.steps += 1
            touched = None
            if k == "draw":
                i = op[1] % len(specs)
                if i not in synths:
                    synths[i] = world.build(specs[i])
                pop = world.draw(synths[i], op[2])
                pops.append((pop, canon.fields(pop)))
            elif k == "chdir":
                os.chdir(os.path.join(base, "w") if os.getcwd() == base else base)
            elif not pops:
                continue
            elif k == "sub":
                pop = pick(op[1])[0].to_sub_population(observed=op[2])
                pops.append((pop, canon.fields(pop)))
            elif k == "copy":
                old, want = pick(op[1])
                pop = self.copy(old, op[2])
                self.compare(want, canon.fields(pop), f"{op[2]} of a population")
                if op[2] != "copy":
                    # one that is not needed any more
                    scribble(self.copy(old, op[2]))
                pops.append((pop, want))
                self.seen += want["n_objects"] > 0
            elif k in ("write", "twice"):
                pop, want = pick(op[1])
                for _ in range(2 if k == "twice" else 1):
                    pop.writeto(where(op[2], op[3]))
                real = self.resolve_link(files, op[2])
                files[real] = {"root": want, "groups": {}, "foreign": False}
                touched = real
            elif k == "empty_file":
                if op[1] in files:
                    continue
                with h5py.File(where(op[1]), "w"):
                    pass
                files[op[1]] = {"root": None, "groups": {}, "foreign": False}
                touched = op[1]
            elif k == "add":
                pop, want = pick(op[1])
                real = self.resolve_link(files, op[2])
                m = files.get(real)
                if m is None:
                    continue
                exists = any(g == op[3] or g.startswith(op[3] + "/") for g in m["groups"])
                try:
                    pop.addto(where(op[2], op[4]), op[3])
                    if exists:
                        raise Violation("overwrote-group", f"adding to the existing group {op[3]} of {op[2]} did not fail")
                    m["groups"][op[3]] = want
                except Violation:
                    raise
                except Exception:
                    if not exists:
                        raise
                    ctx.probe("existing_group_refused")
                touched = real
            elif k == "clash":
                pop, want = pick(op[1])
                real = self.resolve_link(files, op[2])
                m = files.get(real)
                if m is None or m["root"] is None:
                    continue
                try:
                    pop.addto(where(op[2]), op[3])
                except Exception:
                    ctx.probe("reserved_name_refused")
                else:
                    raise Violation("overwrote-group", f"adding a group named {op[3]} to a file with a population did not fail")
                touched = real
            elif k == "missing":
                if self.resolve_link(files, op[2]) in files or os.path.lexists(where(op[2])):
                    continue
                try:
                    pick(op[1])[0].addto(where(op[2]), op[3])
                except Exception:
                    ctx.probe("missing_file_refused")
                else:
                    # created on the fly: it must then hold the population
                    files[op[2]] = {"root": None, "groups": {op[3]: pick(op[1])[1]}, "foreign": False}
                    touched = op[2]
            elif k == "load":
                real = self.resolve_link(files, op[1])
                m = files.get(real)
                if m is None:
                    continue
                names = ([None] if m["root"] is not None else []) + sorted(m["groups"])
                if not names:
                    continue
                g = names[op[2] % len(names)]
                pop = popsynth.Population.from_file(where(op[1])) if g is None else popsynth.Population.from_group(where(op[1]), g)
                want = m["root"] if g is None else m["groups"][g]
                self.compare(want, canon.fields(pop), f"{op[1]} {g}")
                pops.append((pop, want))
            elif k == "delete":
                if op[1] not in files:
                    continue
                os.remove(where(op[1]))
                del files[op[1]]
            elif k == "rename":
                if op[1] not in files or os.path.islink(where(op[1])) or op[1] == op[2] or os.path.islink(where(op[2])):
                    continue
                os.replace(where(op[1]), where(op[2]))
                files[op[2]] = files.pop(op[1])
                touched = op[2]
            elif k == "link":
                if op[1] not in files or op[1] == op[2] or os.path.lexists(where(op[2])) or os.path.islink(where(op[1])):
                    continue
                os.symlink(where(op[1]), where(op[2]))
                files[op[2]] = {"link": op[1]}
                touched = op[1]
            elif k == "foreign":
                real = self.resolve_link(files, op[1])
                m = files.get(real)
                if m is None or m["foreign"]:
                    continue
                with h5py.File(where(op[1]), "r+") as f:
                    f["user data"] = np.arange(7) * 1.5
                    f.attrs["note"] = "mine"
                m["foreign"] = True
                touched = real
            elif k == "read_all":
                for name in sorted(files):
                    self.verify(base, files, name)
            kinds.append(k)
            ctx.probe("op_" + k)
            if touched is not None:
                self.verify(base, files, touched)
                m = files[touched]
                ctx.state(sorted(set(kinds)), len(m["groups"]), m["root"] is not None,
                          [min(3, x["n_objects"]) for x in m["groups"].values()][:3])
        for name in sorted(files):
            self.verify(base, files, name)
        for pop, want in pops:
            self.compare(want, canon.fields(pop), "the population in memory")
        ctx.nontrivial = self.seen > 0
        ctx.sig = repr(([world.shape(s) for s in specs], kinds))
        ctx.samples = {"history": [o[:1] + [x for x in o[1:] if not isinstance(x, dict)] for o in sc["ops"]], "spatial": specs[0]["spatial"]["type"]}

    def copy(self, pop, how):
        if how in ("copy", "deepcopy"):
            return getattr(copy, how)(pop)
        protocol = pickle.HIGHEST_PROTOCOL if how == "process" else int(how[-1])
        data = pickle.dumps(pop, protocol)
        if how == "process":
            # there and back
            data = self.ctx.fork(lambda: pickle.dumps(pickle.loads(data), protocol))
        return pickle.loads(data)

    @staticmethod
    def resolve_link(files, name):
        while name in files and "link" in files[name]:
            name = files[name]["link"]
        return name

    def compare(self, want, got, what):
        d = canon.diff(want, got)
        if d:
            raise Violation("reloaded-population-differs", f"{what}: fields {d}: {canon.show(want, got, d)}")

    def contents(self, path, root, groups, foreign):
        out = {}
        if root:
            out["root"] = canon.fields(popsynth.Population.from_file(path))
        for g in groups:
            out["g:" + g] = canon.fields(popsynth.Population.from_group(path, g))
        if foreign:
            with h5py.File(path, "r") as f:
                out["foreign"] = (list(f["user data"][()]), str(f.attrs["note"]))
        return out

    def verify(self, base, files, name):
        m = files.get(self.resolve_link(files, name))
        if m is None:
            return
        path = os.path.join(base, name)
        args = (path, m["root"] is not None, sorted(m["groups"]), m["foreign"])
        got = self.ctx.fork(self.contents, *args) if self.fork else self.contents(*args)
        if m["root"] is not None:
            self.compare(m["root"], got["root"], f"{name}")
            self.seen += m["root"]["n_objects"] > 0
        for g, want in m["groups"].items():
            self.compare(want, got["g:" + g], f"{name} group {g}")
            self.seen += want["n_objects"] > 0
        if m["foreign"] and got["foreign"] != ([0.0, 1.5, 3.0, 4.5, 6.0, 7.5, 9.0], "mine"):
            raise Violation("other-data-changed", f"{name}: {got['foreign']}")
        self.ctx.event(name, sorted(m["groups"]), [canon.digest(x) for _, x in sorted(got.items()) if isinstance(x, dict)])

    def shrink(self, sc):
        for l in world.shrink_list(sc["ops"]):
            yield dict(sc, ops=l)
        if sc["fork"]:
            yield dict(sc, fork=False)
        for i, s in enumerate(sc["specs"]):
            for t in world.shrink_spec(s):
                yield dict(sc, specs=sc["specs"][:i] + [t] + sc["specs"][i + 1:])


CHECK = C07
