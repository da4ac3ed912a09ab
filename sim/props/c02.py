"""C02: a redraw depends only on the current configuration."""
import canon
import history
import ops
import world
from engine import Check, Violation


def fresh(spec, args):
    w = world.build(spec)
    return canon.fields(world.draw(w, args), with_graph_attrs=True)


class _W(object):
    def __init__(self, synth):
        self.synth = synth


class C02(Check):
    cid = "C02"
    level = "exploration"
    technique = "seeded simulation of operation histories on shared synth parts, every draw compared with a newly built synth"
    rule = ("a run is one random initial synth and a random history of draws, failing draws, parameter changes, "
            "selector and sampler replacements, cleans and further synths sharing parts; every draw is compared; "
            "non-trivial if at least two draws with objects were compared; distinct by history")
    state_measure = "distinct current configurations (shape) reached together with the kinds of operations before"
    real = ["all of popsynth's drawing code", "numpy generators"]
    stub = ["simulated user samplers, selectors and distributions (sim/world.py)"]
    assumptions = ["the reference is the same code building and drawing the modelled configuration in a pristine process"]
    quick_n = 900
    thorough_n = 40000

    def gen(self, rng, index, tier):
        spec, hist, names = history.gen(rng, rng.choice([3, 5, 8, 12, 16, 24]), target=rng.choice([3, 10, 20]))
        for n in names:
            hist.append(["draw", n, world.gen_draw(rng)])
        return {"spec": spec, "ops": hist}

    def run(self, sc, ctx):
        spec = world.resolve(sc["spec"], ctx)
        model = history.Model()
        model.load("A", spec)
        real = history.Real()
        real.load(model, "A", spec)
        drawn = 0
        kinds = []
        for op in sc["ops"]:
            if not model.apply(op):
                continue
            ctx.steps += 1
            kinds.append(op[0])
            ctx.probe("op_" + op[0])
            if op[0] == "draw":
                w = _W(real.synths[op[1]])
                current = model.spec(op[1])
                want = ctx.fork(fresh, current, op[2])
                got = canon.fields(world.draw(w, op[2]), with_graph_attrs=True)
                ctx.event(op[0], canon.digest(want), canon.digest(got))
                ctx.state(world.shape(current), tuple(sorted(set(kinds))), want["n_objects"] > 0)
                if want["n_objects"] > 0:
                    drawn += 1
                d = canon.diff(want, got)
                if d:
                    raise Violation("redraw-depends-on-history",
                                    f"draw number {kinds.count('draw')} of synth {op[1]}: fields {d} differ from a new synth's: "
                                    f"{canon.show(want, got, d)}")
            elif op[0] == "fail":
                if ops.fail_draw(_W(real.synths[op[1]]), op[2], op[3]):
                    ctx.fault("failing_draw")
            elif op[0] == "peek":
                s = real.synths[op[1]]
                if op[2] == "repr":
                    repr(s)
                elif op[2] == "graph":
                    s.graph
                elif op[2] == "to_dict":
                    s.to_dict()
            else:
                real.apply(op, model)
        ctx.nontrivial = drawn >= 2
        ctx.sig = repr((world.shape(spec), kinds))
        ctx.samples = {"spatial": spec["spatial"]["type"], "history": [o[:3] if o[0] != "params" else o for o in sc["ops"]][:12], "draws_compared": drawn}

    def shrink(self, sc):
        for l in world.shrink_list(sc["ops"]):
            yield dict(sc, ops=l)
        for s in world.shrink_spec(sc["spec"]):
            yield dict(sc, spec=s)


CHECK = C02
