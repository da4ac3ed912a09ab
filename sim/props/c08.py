"""C08: a failed or crashed save never costs the old data or yields wrong data."""
import gc
import hashlib
import os
import pathlib
import random
import shutil

import h5py
import yaml

import canon
import disk
import ops
import popsynth
import world
from engine import Check, Violation

GROUPS = ("g1", "g2", "deep/er", "x y")
CALL_ERRORS = {"KeyboardInterrupt": KeyboardInterrupt, "MemoryError": MemoryError, "OSError": OSError, "RuntimeError": RuntimeError}


world.BIG = 0      # scenarios would take too long


class Calls:
    """Counts calls into the storage libraries, and makes the k-th one raise."""

    SITES = ((h5py.Group, "create_dataset"), (h5py.Group, "create_group"), (h5py.Group, "__setitem__"), (h5py.AttributeManager, "create"),
             (h5py.AttributeManager, "__setitem__"), (h5py.File, "close"), (yaml.emitter.Emitter, "emit"),
             (yaml.representer.BaseRepresenter, "represent_data"))

    def __init__(self, k=None, error="OSError", after=False):
        self.k, self.error, self.after = k, error, after
        self.n = 0
        self.fired = False

    def __enter__(self):
        self.old = [getattr(c, m) for c, m in self.SITES]
        for (c, m), f in zip(self.SITES, self.old):
            setattr(c, m, self.wrap(f))
        return self

    def wrap(self, f):
        def call(*a, **kw):
            i = self.n
            self.n += 1
            if i == self.k:
                self.fired = True
                if self.after:
                    f(*a, **kw)
                raise CALL_ERRORS[self.error]("injected")
            return f(*a, **kw)
        return call

    def __exit__(self, *exc):
        for (c, m), f in zip(self.SITES, self.old):
            setattr(c, m, f)
        return False


def load_all(path, names):
    """What a newly started process finds in a file; never raises."""
    out = {}
    for n in names:
        try:
            if n == "yaml":
                out[n] = canon.description(popsynth.PopulationSynth.from_file(path).to_dict())
            elif n == "root":
                out[n] = canon.fields(popsynth.Population.from_file(path))
            else:
                out[n] = canon.fields(popsynth.Population.from_group(path, n[2:]))
        except Exception as e:
            # only whether it loads counts: messages hold addresses and names
            out[n] = "unloadable"
    return out


def copy_tree(a, b):
    shutil.copytree(a, b, symlinks=True)


class C08(Check):
    cid = "C08"
    level = "fault_enumeration"
    technique = ("seeded simulation of the disk below real saves: failing, short and torn writes, full disks, process crashes at any "
                 "system call, interrupts at any storage call, and power failures replayed from the log of operations")
    rule = ("a run is one file with some history and one save over it; the save is repeated under sampled faults and its log of "
            "operations is turned into sampled states after a power failure; what is on the disk is loaded in a new process each "
            "time; non-trivial if at least one fault fired; distinct by configuration shape, kind of save and faults")
    state_measure = "distinct (kind of save, kind of fault, kind of operation hit, outcome, old or new content found)"
    real = ["popsynth's saving and loading", "h5py, HDF5 and PyYAML", "a real file system for what reaches the kernel"]
    stub = ["system calls of the save pass through sim/shim.c", "power failures: sim/disk.py replays the log of operations"]
    assumptions = ["directory changes become durable in order; unsynced data in any order, whole, torn at 512 bytes or not at all",
                   "a crash of the process leaves what its system calls did so far"]
    quick_n = 350
    thorough_n = 12000

    FAULTS = ("errno", "errno", "errno", "device_gone", "short", "short_then_full", "full", "full", "crash", "crash", "crash_torn",
              "crash_after", "eintr", "call", "call", "call")

    def gen(self, rng, index, tier):
        specs = [world.gen_spec(rng, target=rng.choice([2, 5, 12, 40]), sel_prob=rng.choice([0.1, 0.5])) for _ in range(2)]
        kind = rng.choice(["write", "write", "write", "add", "add", "yaml", "yaml"])
        setup = []
        if kind == "yaml":
            if rng.random() < 0.85:
                setup.append(["yaml", 1])
        else:
            if rng.random() < 0.9 or kind == "add":
                setup.append(["write", 1] if rng.random() < 0.8 else ["empty"])
                for g in rng.sample(GROUPS[:3], rng.choice([0, 1, 1, 2])):
                    setup.append(["add", rng.randrange(2), g])
        n = rng.choice([6, 10, 14])
        faults = []
        for _ in range(n):
            faults.append({"kind": rng.choice(self.FAULTS), "at": round(rng.random(), 4), "arg": rng.randrange(1000),
                           "only": rng.choice([None, "mutating", "mutating", "write", "late", "rare", "rare"])})
        return {"specs": specs, "draws": [world.gen_draw(rng), world.gen_draw(rng)], "setup": setup, "kind": kind,
                "group": "x y" if rng.random() < 0.5 else "new", "file": rng.choice(["f.h5", "dir/f.h5", "link.h5", "linkdir/f.h5"]),
                "how": rng.choice(["abs", "abs", "rel", "path"]), "faults": faults, "power": rng.choice([4, 8]), "power_seed": rng.getrandbits(32)}

    # ------------------------------------------------------------------

    def where(self, base, sc, how=None):
        p = os.path.join(base, sc["file"])
        how = how or sc["how"]
        if how == "rel":
            return os.path.relpath(p)
        return pathlib.Path(p) if how == "path" else p

    def save(self, base, sc, objs, op=None):
        kind = op[0] if op else sc["kind"]
        which = op[1] if op and len(op) > 1 else 0
        p = self.where(base, sc, "abs" if op else None)
        if kind == "yaml":
            objs["synths"][which].synth.write_to(p)
        elif kind == "write":
            objs["pops"][which].writeto(p)
        elif kind == "add":
            objs["pops"][which].addto(p, op[2] if op else sc["group"])
        elif kind == "empty":
            with h5py.File(p, "w"):
                pass

    def attempt(self, base, sc, objs, fault, log, keep):
        """Runs in a forked process: one save under a fault, then, if nothing
        died, the same save again without."""
        os.chdir(base)
        calls = Calls()
        if fault is not None and fault[0] == "call":
            calls = Calls(fault[1], *fault[2])
        result = "ok"
        with disk.Disk(base, log) as d:
            if fault is not None and fault[0] != "call":
                d.apply(fault)
            try:
                with calls:
                    self.save(base, sc, objs)
            except BaseException as e:
                result = f"raised {type(e).__name__}"
                e.__traceback__ = None
            gc.collect()
        out = {"result": result, "fired": d.fired + calls.fired, "ops": d.ops, "calls": calls.n, "second": None, "unchanged": True}
        if keep is None:
            return out
        copy_tree(base, keep)
        pops = [canon.fields(p) for p in objs["pops"]]
        out["unchanged"] = all(not canon.diff(a, b) for a, b in zip(pops, objs["fields"]))
        if sc["kind"] != "add" or result == "ok":
            try:
                if sc["kind"] != "add":
                    self.save(base, sc, objs)
                out["second"] = "ok"
            except BaseException as e:
                out["second"] = f"raised {e!r}"
        return out

    def pick(self, f, log, calls):
        """Turn a sampled fault into one at an operation of this save."""
        k = f["kind"]
        if k == "call":
            if not calls:
                return None, "call"
            err = sorted(CALL_ERRORS)[f["arg"] % 4]
            return ["call", int(f["at"] * calls), [err, f["arg"] % 8 >= 4]], "call:" + err
        if k == "full":
            total = sum(len(o["data"]) for o in log)
            return ["full", 0, int(f["at"] * total)], "write"
        cand = list(range(len(log)))
        if f["only"] == "late":
            cand = cand[-8:]
        elif f["only"] == "mutating":
            cand = [i for i in cand if log[i]["kind"] in disk.MUTATING]
        elif f["only"] == "rare":
            kinds = sorted({o["kind"] for o in log})
            kk = kinds[f["arg"] % len(kinds)]
            cand = [i for i in cand if log[i]["kind"] == kk]
        if f["only"] == "write" or k in ("short", "short_then_full", "crash_torn"):
            cand = [i for i in cand if log[i]["kind"] == "write"]
        if not cand:
            return None, ""
        i = cand[int(f["at"] * len(cand))]
        kind = log[i]["kind"]
        if k == "errno" or k == "device_gone":
            e = disk.ERRNOS[kind]
            arg = e[f["arg"] % len(e)]
            if k == "device_gone":
                arg = ["EIO", "ENOSPC"][f["arg"] % 2]
        else:
            arg = f["arg"]
        return [k, i, arg], kind

    def run(self, sc, ctx):
        base = os.path.join(ctx.scratch, "disk")
        for d in ("dir", "real"):
            os.makedirs(os.path.join(base, d))
        os.symlink("real", os.path.join(base, "linkdir"))
        os.symlink("dir/target.h5", os.path.join(base, "link.h5"))
        with open(os.path.join(base, "bystander"), "w") as f:
            f.write("keep me")
        os.chdir(base)
        specs = [world.resolve(s, ctx) for s in sc["specs"]]
        synths = [world.build(s) for s in specs]
        pops = [world.draw(w, a) for w, a in zip(synths, sc["draws"])]
        objs = {"synths": synths, "pops": pops, "fields": [canon.fields(p) for p in pops]}
        kind = sc["kind"]

        names = ["yaml"] if kind == "yaml" else ["root"] + ["g:" + g for g in GROUPS + ("new",)]
        had = bool(sc["setup"])

        def setup():
            for op in sc["setup"]:
                self.save(base, sc, objs, op)

        # HDF5 is used in forked processes only: this one stays as it was started
        ctx.fork(setup)
        old = ctx.fork(load_all, self.where(base, sc, "abs"), names)
        initial = os.path.join(ctx.scratch, "initial")
        copy_tree(base, initial)
        before = disk.snapshot(base)

        def restore():
            # keep inode numbers of the snapshot out of it: only content counts
            shutil.rmtree(base)
            copy_tree(initial, base)
            os.chdir(base)

        # the save without faults
        log_file = os.path.join(ctx.scratch, "log")
        clean = ctx.fork(self.attempt, base, sc, objs, None, log_file, None)
        if clean["result"] != "ok":
            raise Violation("save-failed", f"{kind} without any fault: {clean['result']}")
        log = disk.read_log(log_file)
        new = ctx.fork(load_all, self.where(base, sc, "abs"), names)
        want = "yaml" if kind == "yaml" else "root" if kind == "write" else "g:" + sc["group"]
        if kind == "yaml":
            right = ctx.fork(lambda: canon.description(popsynth.PopulationSynth.from_dict(synths[0].synth.to_dict()).to_dict()))
            differs = new[want] != right
        else:
            differs = new[want] == "unloadable" or bool(canon.diff(objs["fields"][0], new[want]))
        if differs:
            raise Violation("save-not-stored", f"{kind} without any fault did not store its content")
        ctx.event("clean", kind, len(log), clean["calls"])

        def same(a, b):
            return a == b or (isinstance(a, dict) and isinstance(b, dict) and not canon.diff(a, b))

        def equal(x, y):
            return all(same(x[n], y[n]) for n in names)

        def judge(got, done, what):
            """Is what was found allowed, given how the save ended?"""
            if equal(got, new):
                return "new"
            if done == "ok":
                bad = [n for n in names if not same(got[n], new[n])]
                raise Violation("reported-success-but-not-stored", f"{kind} under {what} returned without an error, but {bad} are not as saved")
            if equal(got, old):
                return "old"
            if kind == "add":
                for n in names:
                    if n != want and not same(got[n], old[n]):
                        raise Violation("addition-cost-other-data", f"after a failed addition ({what}, {done}) {n} is "
                                        f"{'lost' if got[n] == 'unloadable' else 'changed'}")
                if got[want] != "unloadable":
                    raise Violation("partial-group-loads", f"after a failed addition ({what}, {done}) a different population loads from the group")
                return "partial"
            if not had:
                if any(got[n] != "unloadable" for n in names):
                    raise Violation("partial-file-loads", f"after a failed {kind} ({what}, {done}) of a new file something else loads from it")
                return "none"
            bad = [n for n in names if not same(got[n], old[n])]
            raise Violation("old-data-lost", f"after a failed {kind} ({what}, {done}) {bad} are neither as before nor as saved: "
                            f"{['lost' if got[n] == 'unloadable' else 'changed' for n in bad]}")

        def look(root):
            return ctx.fork(load_all, self.where(root, sc, "abs"), names)

        def bystander(root):
            with open(os.path.join(root, "bystander")) as f:
                if f.read() != "keep me":
                    raise Violation("other-file-changed", "a file next to the saved one was changed")

        fired = 0
        used = []
        for n, f in enumerate(sc["faults"]):
            fault, hit = self.pick(f, log, clean["calls"])
            if fault is None:
                continue
            restore()
            keep = os.path.join(ctx.scratch, f"keep{n}")
            out = ctx.fork(self.attempt, base, sc, objs, fault, None, keep, may_die=True)
            ctx.steps += 1
            what = f"{fault} at {hit}"
            if isinstance(out, tuple):
                ctx.fault(f["kind"])
                fired += 1
                found = judge(look(base), "the process died", what)
                bystander(base)
                ctx.event(n, fault, "died", found)
                ctx.state(kind, f["kind"], hit, "died", found, had)
                used.append((f["kind"], hit))
                # a later save in a new process
                restart = ctx.fork(self.attempt, base, sc, objs, None, None, os.path.join(ctx.scratch, f"again{n}")) if kind != "add" else None
                if restart is not None:
                    if restart["result"] != "ok":
                        raise Violation("save-after-crash-failed", f"saving again after {what}: {restart['result']}")
                    if not equal(look(base), new):
                        raise Violation("save-after-crash-not-stored", f"saving again after {what} did not store the content")
                    shutil.rmtree(os.path.join(ctx.scratch, f"again{n}"))
                continue
            if not out["fired"]:
                ctx.probe("fault_did_not_fire")
                shutil.rmtree(keep)
                continue
            ctx.fault(f["kind"])
            fired += 1
            found = judge(look(keep), out["result"], what)
            bystander(keep)
            if not out["unchanged"]:
                raise Violation("failed-save-changed-population", f"a population in memory changed when {kind} met {what}")
            if out["second"] is not None:
                if out["second"] != "ok":
                    raise Violation("save-after-failure-failed", f"saving again after {what}: {out['second']}")
                if not equal(look(base), new):
                    raise Violation("save-after-failure-not-stored", f"saving again after {what} did not store the content")
            ctx.event(n, fault, out["result"], found, out["ops"])
            ctx.state(kind, f["kind"], hit, out["result"], found, had)
            ctx.probe("found_" + found)
            used.append((f["kind"], hit, out["result"]))
            shutil.rmtree(keep)

        # power failures
        rng = random.Random(sc["power_seed"])
        seen = set()
        for n in range(sc["power"]):
            state, how = disk.crash_state(before, log, base, rng)
            key = hashlib.sha256(repr(sorted((k, v[0], v[2] if v[0] == "file" else v[1:]) for k, v in state.items())).encode()).hexdigest()
            if key in seen:
                continue
            seen.add(key)
            root = os.path.join(ctx.scratch, "after")
            disk.put(state, root)
            ctx.fault("power_failure")
            fired += 1
            ctx.steps += 1
            done = "ok" if how["ops"] == len(log) else "the machine died"
            found = judge(look(root), done, f"a power failure {how}")
            bystander(root)
            ctx.event("power", how, found)
            ctx.state(kind, "power", how["ops"] == len(log), how["lost_writes"] > 0, found, had)
            ctx.probe("power_found_" + found)
        ctx.nontrivial = fired > 0
        ctx.sig = repr(([world.shape(s) for s in specs], kind, sc["setup"], used))
        ctx.samples = {"save": kind, "setup": sc["setup"], "operations": len(log), "faults": used[:6]}

    def shrink(self, sc):
        if sc["power"] and sc["faults"]:
            yield dict(sc, power=0)
            yield dict(sc, faults=[])
        for f in sc["faults"]:
            if len(sc["faults"]) > 1:
                yield dict(sc, faults=[f])
        if sc["power"] > 1:
            for k in (1, 2, sc["power"] - 1):
                yield dict(sc, power=k)
        for l in world.shrink_list(sc["setup"]):
            if sc["kind"] == "yaml" or not l or l[0][0] in ("write", "empty"):
                if l or sc["kind"] != "add":
                    yield dict(sc, setup=l)
        for i, s in enumerate(sc["specs"]):
            for t in world.shrink_spec(s):
                yield dict(sc, specs=sc["specs"][:i] + [t] + sc["specs"][i + 1:])


CHECK = C08
