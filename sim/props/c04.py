"""C04: concurrent draws in one process do not affect each other."""
import os
import threading

import sched

sched.install()     # before popsynth is imported

import canon
import engine
import faults
import ops
import world
from engine import Check, Violation


def solo(spec, args):
    w = world.build(spec)
    return canon.fields(world.draw(w, args))


def solo_describe(spec):
    w = world.build(spec)
    return canon.description(w.synth.to_dict()), graph_of(w.synth)


def graph_of(synth):
    g = synth.graph
    return (tuple(sorted(map(str, g.nodes))), tuple(sorted((str(a), str(b)) for a, b in g.edges)))


VALUES = ("luminosities", "distances", "fluxes", "theta", "phi", "selection", "known_distances", "probability", "flux_sigma", "seed")


def as_floats(fields):
    def conv(v):
        if isinstance(v, tuple):
            return tuple("f" if i == 0 and x == "i" and len(v) == 3 else conv(x) for i, x in enumerate(v))
        return v

    return {k: conv(v) for k, v in fields.items() if k in VALUES or k.startswith("aux:")}


world.BIG = 0      # scenarios would take too long


class C04(Check):
    cid = "C04"
    level = "exploration"
    technique = "deterministic thread scheduler (seeded, line granularity, simulated locks) over concurrent draws"
    rule = ("a run is two to four threads of random operations (draws of the same and of different synths, failing draws, "
            "descriptions, saves, builds, progress switching) under one random schedule; non-trivial if at least two threads "
            "drew objects and at least one thread was preempted or had to wait for a lock; distinct by switch sequence")
    state_measure = "distinct schedules (sequence of switches) with the operations of the threads"
    real = ["all of popsynth's drawing, saving and describing code", "Python threads (one at a time)", "numpy, h5py, tqdm, logging"]
    stub = ["locks created by popsynth (simulated)", "the thread scheduler", "simulated user samplers and selectors"]
    assumptions = ["threads interleave at line granularity in popsynth's own code; library calls are atomic",
                   "the reference is each call alone in a pristine process"]
    quick_n = 900
    thorough_n = 40000

    def prepare(self):
        import sys
        if isinstance(sys.modules["popsynth.population_synth"].threading.RLock(), sched.SimLock):
            raise engine.HarnessError("the lock seam covers more than popsynth")

    def gen(self, rng, index, tier):
        k = rng.choice([1, 1, 2, 2, 3])
        specs = []
        for i in range(k):
            if specs and rng.random() < 0.4:
                specs.append(ops.neighbour(rng, specs[0]))
            else:
                specs.append(world.gen_spec(rng, target=rng.choice([2, 4, 8]), max_nodes=4))
        threads = []
        for t in range(rng.choice([2, 2, 2, 3, 4])):
            todo = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                i = rng.randrange(k)
                op = rng.choice(["draw"] * 6 + ["fail", "describe", "build", "build_draw", "save", "yaml", "progress", "log", "look", "look", "sub",
                                                 "store", "add", "rebuild"])
                if op in ("draw", "save"):
                    todo.append([op, i, world.gen_draw(rng, rng.choice([None, None, 3, 6]))])
                elif op == "fail":
                    todo.append([op, i, world.gen_draw(rng, 3), rng.randrange(6)])
                elif op == "sub":
                    todo.append([op, i, rng.random() < 0.6])
                elif op in ("describe", "yaml", "look", "store", "add"):
                    todo.append([op, i])
                elif op in ("build", "build_draw", "rebuild"):
                    todo.append([op, i, world.gen_draw(rng, rng.choice([None, 3]))])
                elif op == "progress":
                    todo.append([op, rng.random() < 0.5])
                else:
                    todo.append([op, rng.choice(["silence_logs", "activate_logs", "quiet_mode", "loud_mode"])])
            threads.append(todo)
        r = rng.random()
        if r < 0.7:
            plan = {"seed": rng.randrange(2 ** 31), "p": rng.choice([0.0005, 0.002, 0.01, 0.05, 0.2, 0.5])}
        else:
            plan = {"seed": rng.randrange(2 ** 31), "mode": "pct", "depth": rng.choice([2, 3, 5, 8]), "span": rng.choice([300, 1500, 6000])}
        return {"specs": specs, "threads": threads, "plan": plan, "progress": rng.random() < 0.3, "drawn_before": rng.random() < 0.3}

    def go(self, sc, ctx, specs, want):
        """Run the threads; returns (scheduler, outcomes)."""
        ops.set_progress(sc["progress"])
        worlds = [world.build(s) for s in specs]
        if sc["drawn_before"]:
            for w in worlds:
                world.draw(w, {"n_samples": 2})
        # populations that were drawn earlier
        pops = {}
        for todo in sc["threads"]:
            for op in todo:
                if op[0] in ("look", "sub", "store", "add") and op[1] not in pops:
                    pop = world.draw(world.build(specs[op[1]]), dict(specs[op[1]]["draw"], n_samples=7))
                    pops[op[1]] = [pop, canon.fields(pop)] + [canon.fields(pop.to_sub_population(observed=x)) for x in (False, True)]
        bombs = {}

        def hook(point, obj):
            b = bombs.get(threading.get_ident())
            if b is not None:
                b[0] += 1
                if b[0] > b[1]:
                    raise faults.Planned()

        world.HOOKS.append(hook)

        def task(t, todo):
            def body():
                out = []
                for j, op in enumerate(todo):
                    k = op[0]
                    if k == "draw":
                        out.append(canon.fields(world.draw(worlds[op[1]], op[2])))
                    elif k == "fail":
                        bombs[threading.get_ident()] = [0, op[3]]
                        try:
                            world.draw(worlds[op[1]], op[2])
                        except faults.Planned:
                            out.append("failed")
                        else:
                            out.append("not failed")
                        finally:
                            bombs.pop(threading.get_ident(), None)
                    elif k == "describe":
                        s = worlds[op[1]].synth
                        out.append((canon.description(s.to_dict()), graph_of(s)))
                        repr(s)
                    elif k == "build":
                        w = world.build(specs[op[1]])
                        out.append((canon.description(w.synth.to_dict()), graph_of(w.synth)))
                    elif k == "build_draw":
                        out.append(canon.fields(world.draw(world.build(specs[op[1]]), op[2])))
                    elif k == "save":
                        import popsynth
                        pop = world.draw(worlds[op[1]], op[2])
                        f = os.path.join(ctx.scratch, f"t{t}_{j}.h5")
                        pop.writeto(f)
                        out.append(canon.fields(popsynth.Population.from_file(f)))
                    elif k == "yaml":
                        f = os.path.join(ctx.scratch, f"t{t}_{j}.yml")
                        worlds[op[1]].synth.write_to(f)
                        with open(f) as fh:
                            out.append(len(fh.read()) > 0)
                    elif k == "look":
                        pop = pops[op[1]][0]
                        repr(pop)
                        pop.to_stan_data()
                        pop.fluxes.selected, pop.ra, pop.distances.non_selected
                        out.append((canon.fields(pop), pops[op[1]][1]))
                    elif k == "sub":
                        out.append((canon.fields(pops[op[1]][0].to_sub_population(observed=op[2])), pops[op[1]][3 if op[2] else 2]))
                    elif k in ("store", "add"):
                        import popsynth
                        f = os.path.join(ctx.scratch, f"s{t}_{j}.h5")
                        pop = pops[op[1]][0]
                        pop.writeto(f)
                        if k == "add":
                            pop.addto(f, "again")
                            out.append((canon.fields(popsynth.Population.from_group(f, "again")), pops[op[1]][1]))
                        else:
                            out.append((canon.fields(popsynth.Population.from_file(f)), pops[op[1]][1]))
                    elif k == "rebuild":
                        import popsynth
                        d = worlds[op[1]].synth.to_dict()
                        out.append(canon.fields(popsynth.PopulationSynth.from_dict(d).draw_survey(**op[2])))
                    elif k == "progress":
                        ops.set_progress(op[1])
                        out.append(None)
                    elif k == "log":
                        import popsynth
                        getattr(popsynth, op[1])()
                        out.append(None)
                return out
            return body

        s = sched.Scheduler([task(t, todo) for t, todo in enumerate(sc["threads"])], sc["plan"])
        try:
            tasks = s.run()
        finally:
            world.HOOKS.remove(hook)
        return s, tasks

    def run(self, sc, ctx):
        specs = [world.resolve(s, ctx) for s in sc["specs"]]
        want = {}
        for todo in sc["threads"]:
            for op in todo:
                key = repr(op)
                if key in want:
                    continue
                if op[0] in ("draw", "build_draw", "save", "rebuild"):
                    want[key] = ctx.fork(solo, specs[op[1]], op[2])
                elif op[0] in ("describe", "build"):
                    want[key] = ctx.fork(solo_describe, specs[op[1]])
        try:
            s, tasks = self.go(sc, ctx, specs, want)
        except sched.Deadlock as e:
            raise Violation("deadlock", f"the threads do not all finish: {e}")
        except sched.StepLimit as e:
            raise Violation("no-progress", str(e))
        ctx.steps += s.steps
        for k, v in s.probes.items():
            ctx.probe(k, v)
        ctx.fault("preemption", s.preempted)
        ctx.event(s.switches[-50:], s.steps)
        ctx.state(s.switches)
        drew = 0
        for t, todo in zip(tasks, sc["threads"]):
            if t.error is not None:
                if engine.from_popsynth(t.error):
                    import traceback
                    raise Violation(f"thread-failed:{type(t.error).__name__}",
                                    "".join(traceback.format_exception(t.error))[-2500:])
                raise t.error
            has = False
            for op, got in zip(todo, t.result):
                w = want.get(repr(op))
                if op[0] in ("draw", "build_draw", "save"):
                    d = canon.diff(w, got)
                    ctx.event(t.index, op[0], canon.digest(got))
                    has = has or w["n_objects"] > 0
                    if d:
                        raise Violation("concurrent-draw-differs", f"thread {t.index}, {op[0]} of synth {op[1]} {op[2]}: fields {d} "
                                                                   f"differ from the same call alone: {canon.show(w, got, d)}")
                elif op[0] == "rebuild":
                    has = has or w["n_objects"] > 0
                    # parameters of a rebuilt synth are floating point numbers
                    w, got = as_floats(w), as_floats(got)
                    d = canon.diff(w, got)
                    if d:
                        raise Violation("concurrent-draw-differs", f"thread {t.index}, rebuilt synth {op[1]} {op[2]}: fields {d} "
                                                                   f"differ from the original alone: {canon.show(w, got, d)}")
                elif op[0] in ("look", "sub", "store", "add"):
                    d = canon.diff(got[1], got[0])
                    ctx.probe("population_" + op[0])
                    if d:
                        raise Violation("population-differs", f"thread {t.index}, {op[0]} of a population drawn earlier: fields {d} "
                                                              f"changed: {canon.show(got[1], got[0], d)}")
                elif op[0] in ("describe", "build"):
                    if w != got:
                        raise Violation("description-differs", f"thread {t.index}, {op[0]} of synth {op[1]}: {got} instead of {w}")
                elif op[0] == "fail" and got == "failed":
                    ctx.fault("failing_draw_in_thread")
            drew += has
        if s.free:
            ctx.event("free")
        ctx.nontrivial = drew >= 2 and (s.preempted > 0 or s.probes.get("lock_contended", 0) > 0)
        ctx.sig = repr((s.switches, [[o[0] for o in t] for t in sc["threads"]]))
        ctx.samples = {"threads": [[o[:2] for o in t] for t in sc["threads"]], "plan": sc["plan"], "steps": s.steps,
                       "first_switches": s.switches[:10]}

    def trace(self, sc, scratch):
        ctx = engine.Context("quick", scratch)
        specs = [world.resolve(s, ctx) for s in sc["specs"]]
        os.makedirs(scratch, exist_ok=True)
        try:
            s, tasks = self.go(sc, ctx, specs, {})
        except BaseException:
            return None
        return s.switches

    def shrink(self, sc):
        for i in range(len(sc["threads"])):
            if len(sc["threads"]) > 1:
                yield dict(sc, threads=sc["threads"][:i] + sc["threads"][i + 1:])
        for i, todo in enumerate(sc["threads"]):
            for l in world.shrink_list(todo):
                if l:
                    yield dict(sc, threads=sc["threads"][:i] + [l] + sc["threads"][i + 1:])
        for k in ("progress", "drawn_before"):
            if sc[k]:
                yield dict(sc, **{k: False})
        if "switches" in sc["plan"]:
            for l in world.shrink_list(sc["plan"]["switches"]):
                yield dict(sc, plan={"switches": l})
        for i, s in enumerate(sc["specs"]):
            for x in world.shrink_spec(s):
                yield dict(sc, specs=sc["specs"][:i] + [x] + sc["specs"][i + 1:])
        if "switches" not in sc["plan"]:
            scratch = os.path.join(engine.SCRATCH, "shrink")
            try:
                sw = engine.fork_call(self.trace, sc, scratch)
            except Exception:
                sw = None
            if sw:
                yield dict(sc, plan={"switches": sw})


CHECK = C04
