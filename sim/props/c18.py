"""C18: threads and processes sharing files get whole populations and lose nothing.

Several processes (stopped at every system call on a file) or threads (switched
between lines) save, add to and load from the same files under a seeded schedule;
the history of their operations has to be linearizable.
"""
import hashlib
import json
import os
import random
import shutil
import time

import sched

sched.install()     # before popsynth is imported

import canon
import disk
import engine
import popsynth
import world
from props.c10 import Proc
from engine import Check, HarnessError, Violation

GROUPS = ("g", "h", "deep/er", "x y")
MAX_STEPS = 6000


def do(op, base, pops, synths):
    """One operation on a file; returns what it found, as a digest."""
    k, f = op[0], os.path.join(base, op[1])
    if k == "write":
        pops[op[2]].writeto(f)
    elif k == "add":
        pops[op[2]].addto(f, op[3])
    elif k == "load":
        return canon.digest(canon.fields(popsynth.Population.from_file(f)))
    elif k == "loadg":
        return canon.digest(canon.fields(popsynth.Population.from_group(f, op[2])))
    elif k == "yaml":
        synths[op[2]].write_to(f)
    elif k == "loady":
        return hashlib.sha256(repr(canon.description(popsynth.PopulationSynth.from_file(f).to_dict())).encode()).hexdigest()[:24]
    return None


def attempt(op, base, pops, synths):
    try:
        return ["ok", do(op, base, pops, synths)]
    except Exception as e:
        what = str(e)
        for d in (base, os.path.realpath(base)):
            what = what.replace(d, "")
        return ["error", f"{type(e).__name__}: {what}"[:120]]


class Op:
    """An operation of the history: when it was called, when it returned and what."""

    def __init__(self, who, op, called):
        self.who, self.op, self.called = who, op, called
        self.returned, self.outcome = float("inf"), None        # not known: it may or may not have happened

    def __repr__(self):
        o = "crashed" if self.outcome is None else self.outcome[0] if self.outcome[1] is None else f"{self.outcome[0]}: {self.outcome[1]}"
        return f"[{self.called}..{self.returned}] {self.who}: {' '.join(map(str, self.op))} -> {o}"


def apply(op, state, know):
    """(result, next state) of an operation done alone; result is None if it has to fail."""
    k = op[0]
    if k == "write":
        return ("ok", None), (op[2], frozenset())
    if k == "yaml":
        return ("ok", None), op[2]
    if state is None:
        return None, None
    if k == "add":
        if op[3] in dict(state[1]):
            return None, state
        return ("ok", None), (state[0], state[1] | {(op[3], op[2])})
    if k == "load":
        return ("ok", know["pop"][state[0]]), state
    if k == "loady":
        return ("ok", know["yaml"][state]), state
    g = dict(state[1])
    if op[2] not in g:
        return None, state
    return ("ok", know["pop"][g[op[2]]]), state


CHANGES = ("write", "add", "yaml")


def linearizable(history, start, know):
    """Is there an order of the operations, agreeing with real time, that explains every result?"""
    history = sorted(history, key=lambda o: o.called)
    n = len(history)
    disturbed = [any(o is not p and p.op[0] in (CHANGES if o.op[0] not in CHANGES else ("write", "add", "yaml", "load", "loadg", "loady"))
                     and p.called < o.returned and o.called < p.returned for p in history) for o in history]
    seen = set()

    def go(done, state):
        if done == (1 << n) - 1:
            return True
        if (done, state) in seen:
            return False
        seen.add((done, state))
        horizon = min(o.returned for i, o in enumerate(history) if not done >> i & 1)
        for i, o in enumerate(history):
            if done >> i & 1 or o.called > horizon:
                continue
            result, after = apply(o.op, state, know)
            if o.outcome is None:
                # the process died in it
                if go(done | 1 << i, state) or (result is not None and go(done | 1 << i, after)):
                    return True
            elif o.outcome[0] == "error":
                # fails by itself, or because the file was in use
                if (result is None or disturbed[i]) and go(done | 1 << i, state):
                    return True
            elif result is not None and result[1] == o.outcome[1] and go(done | 1 << i, after):
                return True
        return False

    return go(0, start)


class C18(Check):
    cid = "C18"
    level = "exploration"
    technique = ("seeded simulation of processes (scheduled one system call at a time, some killed) and threads (switched between lines) "
                 "sharing files; the history of their saves, additions and loads is checked for linearizability")
    rule = ("a run is two to four processes or threads with one to four operations each on one or two files under one random schedule, "
            "and loads of everything afterwards; non-trivial if two operations on a file overlapped and one of them changed it; distinct "
            "by operations and schedule")
    state_measure = "distinct (pairs of overlapping operations, system call or line they met at, outcomes)"
    real = ["popsynth's saving and loading", "h5py, HDF5 with its file locks, and PyYAML", "a real file system"]
    stub = ["the order of the system calls of processes (sim/shim.c)", "the thread scheduler and popsynth's locks in thread runs",
            "entropy of each process"]
    assumptions = ["system calls are atomic; in thread runs library calls are, too",
                   "a load or a change may fail while another operation has the file in use"]
    quick_n = 600
    thorough_n = 20000

    def gen(self, rng, index, tier):
        files = rng.choice([["a.h5"], ["a.h5"], ["a.h5", "b.h5"], ["a.h5", "s.yml"], ["s.yml"], ["ü/a b.h5"]])
        setup = {}
        for f in files:
            if rng.random() < 0.75:
                setup[f] = [["yaml", f, 0]] if f.endswith("yml") else [["write", f, 0]]
                if rng.random() < 0.4 and not f.endswith("yml"):
                    setup[f].append(["add", f, 1, "old"])
        mode = rng.choice(["processes", "processes", "threads"])
        flavour = rng.choice(["adds", "adds", "writes", "any", "any"])
        todo = []
        kills = []
        count = 0
        for t in range(rng.choice([2, 2, 2, 3, 4])):
            l = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                f = rng.choice(files)
                if f.endswith("yml"):
                    k = rng.choice(["yaml", "loady"])
                else:
                    k = rng.choice({"adds": ["add", "add", "add", "load", "loadg"], "writes": ["write", "write", "load", "loadg"],
                                    "any": ["write", "add", "add", "load", "loadg"]}[flavour])
                if k in ("write", "yaml"):
                    l.append([k, f, rng.randrange(4)])
                elif k == "add":
                    g = rng.choice(GROUPS) if rng.random() < 0.3 else f"own{count}"
                    count += 1
                    l.append([k, f, rng.randrange(4), g])
                elif k == "loadg":
                    l.append([k, f, rng.choice(GROUPS + ("old", "old", "own0", "own1", "own2"))])
                else:
                    l.append([k, f])
            todo.append(l)
            if mode == "processes" and rng.random() < 0.25:
                kills.append([t, rng.randrange(0, 60), rng.choice(["before", "torn", "after"]), rng.randrange(1000)])
        plan = {"seed": rng.getrandbits(31), "kind": rng.choice(["random", "random", "burst", "pct", "stall"]), "p": rng.choice([0.02, 0.1, 0.3, 0.6]),
                "depth": rng.choice([1, 2, 3, 5])}
        return {"spec": world.gen_spec(rng, target=3, max_nodes=3), "files": files, "setup": setup, "mode": mode, "todo": todo, "kills": kills,
                "plan": plan, "link": rng.random() < 0.15, "entropy": rng.getrandbits(30)}

    # ------------------------------------------------------------------

    def run(self, sc, ctx):
        spec = world.resolve(sc["spec"], ctx)
        base = os.path.join(ctx.scratch, "files")
        os.makedirs(os.path.join(base, "ü"))
        w = world.build(spec)
        # the same survey with different numbers of objects can be told apart
        pops = [world.draw(w, dict(spec["draw"], n_samples=i + 1)) for i in range(4)]
        synths = []
        for i in range(4):
            synths.append(world.build(dict(spec, seed=spec["seed"] % 1000 + i)).synth)
        know = ctx.fork(self.learn, os.path.join(ctx.scratch, "alone"), pops, synths)
        if len(set(know["pop"])) < 4 or len(set(know["yaml"])) < 4:
            raise HarnessError("the populations cannot be told apart")
        for f, l in sc["setup"].items():
            for op in l:
                do(op, base, pops, synths)
            if sc["link"]:
                real = os.path.join(base, "real_" + os.path.basename(f))
                os.rename(os.path.join(base, f), real)
                os.symlink(real, os.path.join(base, f))
        if sc["mode"] == "threads":
            history, end = self.threads(sc, ctx, base, pops, synths)
        else:
            history, end = self.processes(sc, ctx, base, pops, synths)
        # when all is quiet everything loads
        for f in sc["files"]:
            for op in [["loady", f]] if f.endswith("yml") else [["load", f]] + [["loadg", f, g] for g in self.names(sc, f)]:
                o = Op("later", op, end)
                o.outcome = ctx.fork(attempt, op, base, [], [])
                o.returned = end + 1
                end += 2
                history.append(o)
        met = False
        for f in sc["files"]:
            mine = [o for o in history if o.op[1] == f]
            start = None
            for op in sc["setup"].get(f, []):
                start = apply(op, start, know)[1]
            for o in mine:
                ctx.event(repr(o))
                for p in mine:
                    if o is not p and o.called < p.called < o.returned:
                        if o.op[0] in CHANGES or p.op[0] in CHANGES:
                            met = True
                        ctx.state(o.op[0], p.op[0], o.outcome and o.outcome[0], p.outcome and p.outcome[0])
                        if o.outcome and o.outcome[0] == "error" or p.outcome and p.outcome[0] == "error":
                            ctx.probe("file_in_use")
            if not linearizable(mine, start, know):
                raise Violation("not-linearizable", f"no order of these operations on {f}, which held {start} at first, explains their results:\n"
                                + "\n".join(self.show(o, know) for o in sorted(mine, key=lambda o: o.called)))
            ctx.probe("histories_checked")
        ctx.nontrivial = met
        ctx.sig = repr((sc["mode"], sc["todo"], ctx.events[-100:]))
        ctx.samples = {"mode": sc["mode"], "operations": sc["todo"], "plan": sc["plan"], "crashes": sc["kills"]}

    @staticmethod
    def show(o, know):
        s = repr(o)
        for k in ("pop", "yaml"):
            for i, d in enumerate(know[k]):
                s = s.replace(str(d), f"number {i}")
        return s

    @staticmethod
    def names(sc, f):
        out = {"old"}
        for l in sc["todo"]:
            out |= {op[3] for op in l if op[0] == "add" and op[1] == f}
        return sorted(out)

    @staticmethod
    def learn(base, pops, synths):
        os.makedirs(base)
        out = {"pop": [], "yaml": []}
        for i, p in enumerate(pops):
            f = os.path.join(base, f"{i}.h5")
            p.writeto(f)
            p.addto(f, "g")
            a = do(["load", f"{i}.h5"], base, [], [])
            if do(["loadg", f"{i}.h5", "g"], base, [], []) != a:
                raise HarnessError("a group loads as another population than a file")
            out["pop"].append(a)
        for i, s in enumerate(synths):
            s.write_to(os.path.join(base, f"{i}.yml"))
            out["yaml"].append(do(["loady", f"{i}.yml"], base, [], []))
        return out

    def threads(self, sc, ctx, base, pops, synths):
        clock = [0]
        history = []

        def task(t, todo):
            def body():
                for op in todo:
                    clock[0] += 1
                    o = Op(f"thread {t}", op, clock[0])
                    history.append(o)
                    r = attempt(op, base, pops, synths)
                    clock[0] += 1
                    o.outcome, o.returned = r, clock[0]
            return body

        pl = sc["plan"]
        plan = pl
        if "switches" not in pl:
            plan = {"seed": pl["seed"], "p": pl["p"]}
            if pl["kind"] == "pct":
                plan.update(mode="pct", depth=pl["depth"] + 1, span=400)
        s = sched.Scheduler([task(t, l) for t, l in enumerate(sc["todo"])], plan)
        try:
            tasks = s.run()
        except sched.Deadlock as e:
            raise Violation("deadlock", f"the threads do not all finish: {e}")
        except sched.StepLimit as e:
            raise Violation("no-progress", str(e))
        for t in tasks:
            if t.error is not None:
                raise t.error
        ctx.steps += s.steps
        ctx.fault("preemption", s.preempted)
        ctx.probe("thread_runs")
        ctx.event(s.switches[-50:])
        return history, clock[0] + 1

    def processes(self, sc, ctx, base, pops, synths):
        rng = random.Random(sc["plan"]["seed"])
        mark = os.path.join(base, ".mark")

        def body(i, todo):
            def go(ctl):
                engine.set_machine(sc["entropy"] + i)
                time.sleep = lambda s: os.path.exists(os.path.join(mark, "sleep"))
                disk.lib().popsim_start(os.path.realpath(base).encode(), ctl, -1)
                try:
                    for j, op in enumerate(todo):
                        os.path.exists(os.path.join(mark, f"b{j}"))
                        r = attempt(op, base, pops, synths)
                        os.path.exists(os.path.join(mark, f"e{j}:" + json.dumps(r).replace("/", "|")))
                finally:
                    disk.lib().popsim_stop()
            return go

        procs = []
        for i, l in enumerate(sc["todo"]):
            procs.append(Proc(i, body(i, l), list(procs)))
        history = []
        current = {}
        kills = {(k[0], k[1]): k for k in sc["kills"]}
        prio = [rng.random() for _ in procs]
        changes = {rng.randrange(1, 60 * len(procs)) for _ in range(sc["plan"]["depth"])}
        stalled, stall_at = rng.randrange(len(procs)), rng.randrange(0, 60)
        blocked = {}
        progress = 0
        step = 0
        last = None
        kind = sc["plan"]["kind"]
        realmark = os.path.join(os.path.realpath(base), ".mark")
        try:
            while True:
                for p in procs:
                    while not p.done and p.waiting is None:
                        p.settle()
                        if not p.done and p.waiting[1].startswith(realmark):
                            what = p.waiting[1][len(realmark) + 1:]
                            if what[0] == "e":
                                # the operation is over
                                o = current.pop(p.n)
                                o.returned, o.outcome = step, json.loads(what.split(":", 1)[1].replace("|", "/"))
                                p.go()
                                progress += 1
                alive = [p for p in procs if not p.done]
                if not alive:
                    break
                ready = [p for p in alive if blocked.get(p.n) != progress]
                if not ready:
                    raise Violation("deadlock", "the processes wait for one another: " + ", ".join(f"{p.n} at {p.waiting[0]}" for p in alive))
                if kind == "pct":
                    if step in changes:
                        prio[max(ready, key=lambda p: prio[p.n]).n] = -step
                    p = max(ready, key=lambda p: prio[p.n])
                elif kind == "stall":
                    others = [p for p in ready if p.n != stalled or p.ops < stall_at]
                    p = rng.choice(others or ready)
                elif kind == "burst":
                    same = [p for p in ready if p.n == last]
                    p = same[0] if same and rng.random() < 0.85 else rng.choice(ready)
                else:
                    p = rng.choice(ready)
                last = p.n
                step += 1
                if step > MAX_STEPS:
                    raise Violation("no-progress", f"{step} file operations, and these are not done: {sorted(map(repr, current.values()))}")
                what, path = p.waiting
                if path.startswith(realmark):
                    m = path[len(realmark) + 1:]
                    if m[0] == "b":
                        o = Op(f"process {p.n}", sc["todo"][p.n][int(m[1:])], step)
                        history.append(o)
                        current[p.n] = o
                    p.go()
                    progress += 1
                    continue
                ctx.event(p.n, what, os.path.basename(path)[-20:])
                if len(current) > 1:
                    ctx.state("meet", *sorted(o.op[0] for o in current.values()), current[p.n].op[0] if p.n in current else None, what)
                k = kills.get((p.n, p.ops))
                if k is not None:
                    ctx.fault("crash_" + k[2])
                    p.go({"before": disk.DIE, "torn": disk.DIE_PART, "after": disk.DIE_AFTER}[k[2]], k[3])
                    p.settle()
                    progress += 1
                    if p.done:
                        current.pop(p.n, None)
                    continue
                p.go()
                p.settle()
                if not p.done and what == "flock" and p.waiting == ("flock", path):
                    # it has to wait until someone else does something
                    blocked[p.n] = progress
                    ctx.probe("waited_for_lock")
                else:
                    progress += 1
                if not p.done and p.waiting[1].startswith(realmark + "/e"):
                    o = current.pop(p.n)
                    o.returned, o.outcome = step, json.loads(p.waiting[1][len(realmark) + 1:].split(":", 1)[1].replace("|", "/"))
                    p.go()
        finally:
            for p in procs:
                if not p.done:
                    try:
                        os.kill(p.pid, 9)
                        os.waitpid(p.pid, 0)
                    except OSError:
                        pass
        ctx.steps += step
        ctx.probe("process_runs")
        return history, step + 1

    def shrink(self, sc):
        for i in range(len(sc["todo"])):
            if len(sc["todo"]) > 1:
                yield dict(sc, todo=sc["todo"][:i] + sc["todo"][i + 1:],
                           kills=[[k[0] - (k[0] > i)] + k[1:] for k in sc["kills"] if k[0] != i])
        for i, l in enumerate(sc["todo"]):
            for m in world.shrink_list(l):
                if m:
                    yield dict(sc, todo=sc["todo"][:i] + [m] + sc["todo"][i + 1:])
        for l in world.shrink_list(sc["kills"]):
            yield dict(sc, kills=l)
        if sc["link"]:
            yield dict(sc, link=False)
        for f, l in sc["setup"].items():
            if len(l) > 1:
                yield dict(sc, setup=dict(sc["setup"], **{f: l[:1]}))
        for k in ("burst", "pct", "random"):
            if sc["plan"]["kind"] != k:
                yield dict(sc, plan=dict(sc["plan"], kind=k))
        for s in range(3):
            if sc["plan"]["seed"] != s:
                yield dict(sc, plan=dict(sc["plan"], seed=s))
        for s in world.shrink_spec(sc["spec"]):
            yield dict(sc, spec=s)


CHECK = C18
