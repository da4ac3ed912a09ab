"""C01: same configuration and seed, same survey."""
import contextlib
import io
import threading

import canon
import engine
import ops
import popsynth
import world
from engine import Check, Violation

PEEKS = ("repr", "graph", "to_dict", "display", "params", "truth", "draw_flux")


def peek(w, what):
    s = w.synth
    if what == "repr":
        repr(s)
    elif what == "graph":
        s.graph
    elif what == "to_dict":
        s.to_dict()
    elif what == "display":
        with contextlib.redirect_stdout(io.StringIO()):
            s.display()
    elif what == "params":
        for _, o in w.objects():
            getattr(o, "params", None) or getattr(o, "parameters", None)
    elif what == "truth":
        for _, o in w.objects():
            getattr(o, "truth", None)
    elif what == "draw_flux":
        import numpy as np
        s.draw_log10_fobs(np.ones(3), 0.1, size=3)


def pristine(spec):
    w = world.build(spec)
    pop = world.draw(w, spec["draw"])
    return canon.fields(pop)


class C01(Check):
    cid = "C01"
    level = "exploration"
    technique = "seeded simulation of process histories before a draw, compared bit for bit with a pristine process"
    rule = ("a run is one random synth configuration and one random history of other activity before (and between "
            "building and) drawing it; it is non-trivial if the survey holds at least one object and at least one "
            "operation preceded the draw; distinct by configuration shape and history kinds")
    state_measure = "distinct (configuration shape, history operation kinds, outcome digest) signatures"
    real = ["all of popsynth's sampling, selection and population code", "numpy and scipy generators", "tqdm", "logging",
            "h5py and yaml in save/load histories", "numba (in the JIT runs)"]
    stub = ["a third of the samplers, selectors and distributions are simulated user parts (sim/world.py)"]
    assumptions = ["the reference is the same code in a process forked from a master that only imported popsynth",
                   "surveys under compiled and interpreted numba functions are not compared with each other"]
    quick_n = 1400
    thorough_n = 60000

    def gen(self, rng, index, tier):
        spec = world.gen_spec(rng)
        pre = [ops.gen_op(rng, spec) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 4, 6]))]
        post = []
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            if rng.random() < 0.5:
                post.append(["peek", rng.choice(PEEKS)])
            else:
                post.append(ops.gen_op(rng, spec))
        return {"spec": spec, "pre": pre, "post": post, "thread": rng.random() < 0.1,
                "early": rng.random() < 0.2, "machine": [rng.randrange(2 ** 31), round(rng.uniform(1e9, 2e9), 1)]}

    def observe(self, sc, ctx):
        """History, then the draw; returns the fields of the population."""
        spec = sc["spec"]
        engine.set_machine(*sc["machine"])
        w = world.build(spec) if sc["early"] else None
        for op in sc["pre"]:
            ops.apply(op, spec, ctx)
        if w is None:
            w = world.build(spec)
        for op in sc["post"]:
            if op[0] == "peek":
                peek(w, op[1])
                ctx.probe("peek_" + op[1])
            else:
                ops.apply(op, spec, ctx)
        box = []
        if sc["thread"]:
            t = threading.Thread(target=lambda: box.append(world.draw(w, spec["draw"])))
            t.start()
            t.join()
        else:
            box.append(world.draw(w, spec["draw"]))
        return canon.fields(box[0])

    def compare(self, sc, ctx):
        want = ctx.fork(pristine, sc["spec"])
        got = self.observe(sc, ctx)
        self.judge(sc, ctx, want, got)

    def judge(self, sc, ctx, want, got):
        d = canon.diff(want, got)
        ctx.event("want", canon.digest(want))
        ctx.event("got", canon.digest(got))
        if d:
            raise Violation("survey-depends-on-history", f"fields {d} differ: {canon.show(want, got, d)}")

    def run(self, sc, ctx):
        sc = dict(sc)
        env = sc.get("env")
        if env is None or env == engine.ENV_HERE:
            sc["spec"] = world.resolve(sc["spec"], ctx)
            want = ctx.fork(pristine, sc["spec"])
            got = self.observe(sc, ctx)
        elif env.get("jit"):
            # both in the other interpreter
            sc["spec"] = world.resolve(sc["spec"], ctx)
            (res,) = engine.remote(self, env, "compare", [sc])
            self.relay(res)
            ctx.nontrivial = True
            ctx.sig = repr((env, world.shape(sc["spec"])))
            return
        else:
            sc["spec"] = world.resolve(sc["spec"], ctx)
            want = ctx.fork(pristine, sc["spec"])
            (res,) = engine.remote(self, env, "observe", [sc])
            self.relay(res)
            got = res["sample"]
        kinds = tuple(sorted({o[0] for o in sc["pre"]} | {o[0] + "2" for o in sc["post"]}))
        ctx.nontrivial = want["n_objects"] > 0 and bool(kinds)
        ctx.sig = repr((world.shape(sc["spec"]), kinds))
        ctx.state(world.shape(sc["spec"]), kinds, canon.digest(want))
        ctx.steps += len(sc["pre"]) + len(sc["post"]) + 1
        ctx.samples = {"spatial": sc["spec"]["spatial"], "history": [o[:1] if len(o) > 1 and isinstance(o[1], dict) else o for o in sc["pre"]],
                       "between": [o[:2] if o[0] == "peek" else o[:1] for o in sc["post"]], "objects": want["n_objects"],
                       "detected": want["n_detections"]}
        self.judge(sc, ctx, want, got)

    @staticmethod
    def relay(res):
        if res["status"] == "violation":
            raise Violation(res["cls"], res["detail"])
        if res["status"] != "ok":
            raise engine.HarnessError(res.get("detail"))

    def warm_up(self):
        if engine.ENV_HERE["jit"]:
            import random
            rng = random.Random(0)
            for t in world.COSMO + ("PowerLaw",):
                if t == "PowerLaw":
                    spec = world.gen_spec(rng, aux_types=["BrokenPowerLawAuxSampler"], derived_prob=0, spatial_types=("FlatlandDistribution",))
                else:
                    spec = world.gen_spec(rng, spatial_types=(t,), builtin_prob=0)
                spec = world.open_selections(spec)
                world.draw(world.build(spec), spec["draw"])

    def extra(self, seed, tier, master):
        """Other interpreters: hash seeds, and compiled numba functions."""
        n = 40 if tier == "quick" else 600
        plan = [({"jit": False, "hashseed": "1"}, "observe", n), ({"jit": False, "hashseed": "4242"}, "observe", n),
                ({"jit": True, "hashseed": "0"}, "compare", n)]
        base = 1000000
        for env, method, count in plan:
            scs = []
            for j in range(count):
                sc = master.scenario(base + j)
                sc["env"] = env
                scs.append(sc)
            base += 100000
            prepared = {}
            for res in Master_map(master, self, "reference", scs):
                prepared[res["index"]] = res
            bad = [r for r in prepared.values() if r["status"] != "ok"]
            if bad:
                b = bad[0]
                b["scenario"] = scs[b["index"]]
                b["index"] = "x%d" % b["index"]
                yield b
                return
            for i, sc in enumerate(scs):
                sc["spec"] = prepared[i]["sample"][0]
            results = engine.remote(self, env, method, scs)
            for i, res in enumerate(results):
                sc = scs[i]
                res["index"] = f"env{sorted(env.items())}-{i}"
                res["scenario"] = sc
                if res["status"] == "ok":
                    want = prepared[i]["sample"][1]
                    res["nontrivial"] = want["n_objects"] > 0
                    res["sig"] = repr((env, world.shape(sc["spec"])))
                    if method == "observe":
                        d = canon.diff(want, res["sample"])
                        if d:
                            res.update(status="violation", cls="survey-depends-on-history",
                                       detail=f"with {env}: fields {d} differ")
                res["sample"] = None
                res["probes"]["env_jit" if env["jit"] else "env_hashseed"] = 1
                yield res

    def reference(self, sc, ctx):
        spec = world.resolve(sc["spec"], ctx)
        return spec, ctx.fork(pristine, spec)

    def shrink(self, sc):
        for key in ("pre", "post"):
            for l in world.shrink_list(sc[key]):
                yield dict(sc, **{key: l})
        if sc["thread"]:
            yield dict(sc, thread=False)
        if sc["early"]:
            yield dict(sc, early=False)
        for s in world.shrink_spec(sc["spec"]):
            yield dict(sc, spec=s)
        for key in ("pre", "post"):
            for i, op in enumerate(sc[key]):
                for o in ops.shrink_op(op):
                    yield dict(sc, **{key: sc[key][:i] + [o] + sc[key][i + 1:]})


def Master_map(master, check, method, args):
    m = engine.Master(engine._RemoteCheck(check, method), master.seed, master.tier)
    return m.map(list(enumerate(args)), wall=900, stop_on_violation=False)


CHECK = C01
