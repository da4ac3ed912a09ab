"""C03: an interrupted or failing draw leaves the synth as it was."""
import threading

import popsynth
from omegaconf import OmegaConf

import canon
import faults
import ops
import world
from engine import Check, Violation


def pristine(spec, args, progress):
    ops.set_progress(progress)
    w = world.build(spec)
    return canon.fields(world.draw(w, args))


def counts(spec, args, progress):
    """How often each fault site is passed in an undisturbed draw."""
    ops.set_progress(progress)
    w = world.build(spec)
    inj = faults.Injector()
    with inj.armed():
        world.draw(w, args)
    return inj.counts


def parameters(w):
    out = {}
    for label, o in w.objects():
        for attr in ("params", "parameters", "truth"):
            if hasattr(type(o), attr):
                out[label + "." + attr] = canon.tree(dict(getattr(o, attr)))
    out["description"] = canon.description(w.synth.to_dict())
    # what the user has asked for on the screen
    out["settings"] = repr(OmegaConf.to_container(popsynth.popsynth_config))
    return out


class C03(Check):
    cid = "C03"
    level = "fault_enumeration"
    technique = "seeded fault injection into simulated draws: exceptions at the k-th callback, random call, integration or console write"
    rule = ("a run is one random synth and a sequence of draws, each with an exception injected at a random pass of a random "
            "fault site, with undisturbed draws in between; non-trivial if at least one fault fired; distinct by "
            "configuration shape, sites and exception kinds")
    state_measure = "distinct (configuration shape, fault site, exception kind, quarter of the draw) combinations"
    real = ["all of popsynth's drawing code", "numpy, scipy, tqdm and logging around the fault sites"]
    stub = ["simulated user samplers, selectors and distributions as fault points", "console streams"]
    assumptions = ["faults come from user callbacks, random number calls, integration and console output, not from arbitrary lines"]
    quick_n = 2000
    thorough_n = 60000

    def gen(self, rng, index, tier):
        # simulated parts offer the most places to fail, library parts are what may mind
        sim = rng.random() < 0.5
        spec = world.gen_spec(rng, sim_fraction=0.75 if sim else 0.3, target=rng.choice([2, 5, 10]),
                              spatial_types=world.SPATIAL_TYPES + ("SimSpatial",) * 5 * sim, lum_types=world.LUM_TYPES + ("SimLum",) * 4 * sim)
        seq = []
        for _ in range(rng.choice([1, 1, 2, 3, 4])):
            if rng.random() < 0.15:
                seq.append({"args": world.gen_draw(rng)})
            else:
                seq.append({"args": world.gen_draw(rng), "site": rng.choice(faults.FAMILIES + ("hook", "hook", "rng", "any", "any")), "pick": rng.randrange(1 << 16), "at": round(rng.random(), 4),
                            "exc": rng.choice(["Planned"] * 2 + ["AnyKind"] * 5 + sorted(faults.EXCEPTIONS)), "peek": rng.random() < 0.3})
        if rng.random() < 0.5:
            # the next draw with the very same arguments
            spec["draw"] = dict(seq[-1]["args"])
        return {"spec": spec, "seq": seq, "progress": rng.random() < 0.5, "look_first": rng.random() < 0.5,
                "thread": rng.random() < 0.3}

    def run(self, sc, ctx):
        spec = world.resolve(sc["spec"], ctx)
        ops.set_progress(sc["progress"])
        w = world.build(spec)
        if sc["look_first"]:
            before = parameters(w)
        else:
            # looking itself is not to be what keeps the values
            before = ctx.fork(lambda: parameters(world.build(spec)))
        fired = []
        for st in sc["seq"]:
            ctx.steps += 1
            if "site" not in st:
                world.draw(w, st["args"])
                continue
            n = ctx.fork(counts, spec, st["args"], sc["progress"])
            # each function that is passed counts the same, however often it is
            have = sorted(s for s in n if n[s])
            fam = [s for s in have if s.split(":")[0] == st["site"]] or have
            site = fam[st["pick"] % len(fam)]
            k = min(n[site] - 1, int(st["at"] * n[site]))
            inj = faults.Injector(site, k, st["exc"])
            caught = None
            try:
                with inj.armed():
                    pop = world.draw(w, st["args"])
            except BaseException as e:
                caught = e
            if inj.raised is None:
                if caught is not None:
                    raise caught
                # fewer passes than in a new synth; what was drawn has to be
                # the same
                ctx.probe("fault_not_met")
                alone = ctx.fork(pristine, spec, st["args"], sc["progress"])
                d = canon.diff(alone, canon.fields(pop))
                if d:
                    raise Violation("next-draw-differs", f"after failures at {fired}: fields {d} differ: {canon.show(alone, canon.fields(pop), d)}")
                continue
            ctx.fault(site)
            ctx.probe("exception_" + st["exc"])
            ctx.event(site, k, st["exc"], type(caught).__name__)
            ctx.state(world.shape(spec), site, st["exc"], int(4 * k / n[site]))
            fired.append((site, st["exc"]))
            if caught is None:
                # logging may deal with its own errors
                if site != "console":
                    raise Violation("exception-swallowed", f"{st['exc']} raised at {site} (pass {k + 1} of {n[site]}) did not reach the caller")
            elif caught is not inj.raised:
                raise Violation("exception-replaced", f"{st['exc']} raised at {site} reached the caller as {caught!r}")
            if st.get("peek"):
                self.same(before, parameters(w), site)
        self.same(before, parameters(w), fired)
        want = ctx.fork(pristine, spec, spec["draw"], sc["progress"])
        box = []
        # tqdm keeps its own process-wide lock when its console raises: what
        # other threads may then draw is not popsynth's to say
        if sc["thread"] and not any(f[0] in ("console", "progress") for f in fired):
            def go():
                try:
                    box.append(world.draw(w, spec["draw"]))
                except BaseException as e:
                    box.append(e)
            t = threading.Thread(target=go, daemon=True)
            t.start()
            t.join(40)
            if not box:
                raise Violation("hang", f"after failures at {fired}, a draw from another thread does not finish")
            if isinstance(box[0], BaseException):
                raise box[0]
        else:
            box.append(world.draw(w, spec["draw"]))
        got = canon.fields(box[0])
        ctx.event(canon.digest(want), canon.digest(got))
        d = canon.diff(want, got)
        if d:
            raise Violation("next-draw-differs", f"after failures at {fired}: fields {d} differ: {canon.show(want, got, d)}")
        self.same(before, parameters(w), "the next draw")
        ctx.nontrivial = bool(fired)
        ctx.sig = repr((world.shape(spec), fired))
        ctx.samples = {"spatial": spec["spatial"], "sequence": sc["seq"], "fired": fired}

    @staticmethod
    def same(before, after, where):
        d = canon.diff(before, after)
        if d:
            raise Violation("parameters-changed", f"after {where}: {d}: {canon.show(before, after, d)}")

    def shrink(self, sc):
        for l in world.shrink_list(sc["seq"]):
            if l:
                yield dict(sc, seq=l)
        for k in ("thread", "progress"):
            if sc[k]:
                yield dict(sc, **{k: False})
        if not sc["look_first"]:
            yield dict(sc, look_first=True)
        for s in world.shrink_spec(sc["spec"]):
            yield dict(sc, spec=s)
        for i, st in enumerate(sc["seq"]):
            for c in ({"at": 0.0}, {"exc": "Planned"}, {"args": {}}):
                if "site" in st and dict(st, **c) != st:
                    yield dict(sc, seq=sc["seq"][:i] + [dict(st, **c)] + sc["seq"][i + 1:])


CHECK = C03
