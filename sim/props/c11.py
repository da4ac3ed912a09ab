"""C11: logging modes, clocks and log-disk faults never affect results; modes restore.

Every run imports popsynth in its own process with its own home directory, so
that the real log handlers write files of their own below the simulated disk.
"""
import errno
import io
import json
import os
import random
import shutil
import sys
import time

import disk
import engine
from engine import Check, HarnessError, Violation

LEVELS = ("DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL")
PROBE_LEVELS = (10, 15, 20, 30, 40, 45, 50)
FILES = ("a.h5", "b.h5")


class Console(io.TextIOBase):
    """A console that can be made to fail."""

    def __init__(self):
        self.mode = "ok"
        self.text = []
        self.failed = 0

    encoding = "utf-8"

    def writable(self):
        return True

    def isatty(self):
        return False

    def write(self, s):
        if self.mode != "ok":
            self.failed += 1
        if self.mode == "eio":
            raise OSError(errno.EIO, "Input/output error")
        if self.mode == "pipe":
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        if self.mode == "closed":
            raise ValueError("I/O operation on closed file.")
        if self.mode == "encoding":
            raise UnicodeEncodeError("ascii", "x", 0, 1, "ordinal not in range(128)")
        if self.mode == "full":
            raise OSError(errno.ENOSPC, "No space left on device")
        self.text.append(s)
        return len(s)

    def flush(self):
        if self.mode in ("eio", "pipe", "full"):
            self.failed += 1
            raise OSError(errno.EIO, "Input/output error")


class Raised(Exception):
    pass


def world_gen(seed):
    """In a process of its own: it imports popsynth."""
    os.environ["HOME"] = os.path.join(engine.SCRATCH, "genhome")
    import world
    world.BIG = 0      # scenarios would take too long
    rng = random.Random(seed)
    specs = [world.gen_spec(rng, target=rng.choice([2, 6, 15]), sel_prob=rng.choice([0.1, 0.5])) for _ in range(rng.choice([1, 1, 2]))]
    draws = [world.gen_draw(rng) for _ in range(12)]
    return specs, draws


class C11(Check):
    cid = "C11"
    level = "fault_enumeration"
    technique = ("seeded simulation of surveys, saves and loads under failing log files, failing consoles, jumping clocks and logging "
                 "modes, against the same history without any of it; levels judged by what is emitted")
    rule = ("a run is one history of draws, saves, loads and logging calls in a process with random settings, under disk faults below "
            "the log directory, console faults and clock jumps; its results are compared with those of a process without; non-trivial "
            "if at least one fault or logging call took effect; distinct by settings and history")
    state_measure = "distinct (last logging calls, settings, fault in force, kind of work done)"
    real = ["all of popsynth, its log handlers included", "Python's logging with rotation", "the file system below a scratch home directory"]
    stub = ["the wall clock", "system calls on log files pass through sim/shim.c", "the console", "simulated user samplers, selectors and distributions"]
    assumptions = ["progress bars are no part of the console that may fail (C03: their errors reach the caller)",
                   "a log directory that cannot be written when the package is first imported is outside the property"]
    quick_n = 400
    thorough_n = 12000
    preload_popsynth = False
    wall_quick = 600

    def prepare(self):
        sys.dont_write_bytecode = False
        sys.pycache_prefix = os.path.join(engine.SCRATCH, "pyc")

        def once():
            home = os.path.join(engine.SCRATCH, "genhome")
            os.makedirs(home)
            os.environ["HOME"] = home
            import popsynth
            import world  # noqa
            return os.path.realpath(os.path.dirname(popsynth.__file__))

        base = engine.fork_call(once)
        if base != os.path.join(os.path.realpath(engine.REPO), "popsynth"):
            raise HarnessError(f"popsynth was imported from {base}")

    def gen(self, rng, index, tier):
        specs, draws = engine.fork_call(world_gen, rng.getrandbits(64))
        settings = {"logging": {"debug": rng.random() < 0.5,
                                "console": {"on": rng.random() < 0.85, "level": rng.choice(LEVELS + ("DEBUG", "INFO"))},
                                "file": {"on": rng.random() < 0.85, "level": rng.choice(LEVELS + ("DEBUG", "INFO"))}},
                    "show_progress": rng.random() < 0.5}
        hist = []
        n_draw = 0
        faulty = rng.random() < 0.75
        for _ in range(rng.choice([6, 10, 16, 24])):
            r = rng.random()
            if r < 0.38 or not faulty and r < 0.2:
                k = rng.choice(["draw", "draw", "draw", "save", "add", "load", "yaml", "from_dict", "clean", "refuse", "reload"])
                if k == "draw":
                    hist.append([k, rng.randrange(2), draws[n_draw % len(draws)]])
                    n_draw += 1
                else:
                    hist.append([k, rng.randrange(4), rng.choice(FILES)])
            elif r < 0.66 or not faulty:
                k = rng.choice(["silence_logs", "silence_logs", "quiet_mode", "loud_mode", "debug_mode", "activate_logs", "activate_logs",
                                "silence_warnings", "activate_warnings", "update_logging_level", "show_progress_bars",
                                "silence_progress_bars", "block", "emit", "emit", "user_level"])
                arg = None
                if k == "update_logging_level":
                    arg = rng.choice(LEVELS)
                elif k == "user_level":
                    arg = [rng.choice(["usr", "console"]), rng.choice(LEVELS)]
                elif k == "block":
                    arg = [rng.choice([None, None, "Raised", "KeyboardInterrupt", "GeneratorExit", "SystemExit", "OSError"]),
                           rng.choice(["nothing", "emit", "draw", "nested"])]
                elif k == "emit":
                    arg = [rng.choice(PROBE_LEVELS), rng.choice(["line", "ünïcode", "%s", "two\nlines", "x" * 9000])]
                hist.append(["mode", k, arg])
            else:
                k = rng.choice(["errno", "errno", "errno", "gone", "full", "remove_file", "remove_dir", "be_a_dir", "clock", "clock", "clock",
                                "console", "console", "console", "stderr", "heal", "read_only"])
                arg = None
                if k == "errno":
                    arg = [rng.randrange(0, 8), rng.choice(["EIO", "ENOSPC", "EACCES", "ENOENT", "EROFS", "EMFILE", "EINTR"]), rng.choice([1, 1, 3, 8])]
                elif k == "gone":
                    arg = rng.choice(["EIO", "ENOSPC"])
                elif k == "full":
                    arg = rng.choice([0, 10, 100, 1000])
                elif k == "clock":
                    arg = rng.choice([3600.0, 86400.0, 86401.0, 90000.0, 864000.0, 4e6, -3600.0, -86400.0, -4e7, -1.6e9, 9e8, 2.5e9])
                elif k == "console":
                    arg = rng.choice(["eio", "pipe", "closed", "encoding", "full", "ok"])
                hist.append(["fault", k, arg])
        if not any(h[0] == "draw" for h in hist):
            hist.append(["draw", 0, draws[0]])
        if rng.random() < 0.5:
            pair = [["mode", rng.choice(["silence_logs", "silence_logs", "quiet_mode"]), None], ["mode", "activate_logs", None]]
            between = []
            for _ in range(rng.choice([0, 1, 1, 2])):
                k = rng.choice(["user_level", "user_level", "update_logging_level", "debug_mode", "loud_mode", "silence_warnings", "block", "emit"])
                between.append(["mode", k, {"user_level": [rng.choice(["usr", "console"]), rng.choice(LEVELS)], "update_logging_level": rng.choice(LEVELS),
                                            "block": [None, "nothing"], "emit": [30, "line"]}.get(k)])
            seq = pair + between + pair
            if rng.random() < 0.5:
                hist = seq + hist
            else:
                hist += [["fault", "heal", None]] + seq
        return {"specs": specs, "settings": settings, "ops": hist, "old_logs": rng.choice([None, None, "today", "old"]), "quiet_end": rng.random() < 0.3}

    # ------------------------------------------------------------------

    def run(self, sc, ctx):
        if "popsynth" in sys.modules:
            raise HarnessError("popsynth was imported by the master")
        want = ctx.fork(self.history, sc, os.path.join(ctx.scratch, "ref"), False)
        got = ctx.fork(self.history, sc, os.path.join(ctx.scratch, "sim"), True)
        for i, (a, b) in enumerate(zip(want["results"], got["results"])):
            if a != b:
                raise Violation("result-depends-on-logging", f"operation {a[0]} gave {b[1:]} instead of {a[1:]}: {b[-1] if isinstance(b[-1], str) else ''}")
        if len(want["results"]) != len(got["results"]):
            raise Violation("result-depends-on-logging", "different operations were done")
        for k, v in got["faults"].items():
            ctx.fault(k, v)
        for k, v in got["probes"].items():
            ctx.probe(k, v)
        for s in got["states"]:
            ctx.state(*s)
        ctx.steps += len(sc["ops"])
        ctx.sim_time += got["sim_time"]
        ctx.event(got["results"], sorted(got["faults"].items()), got["levels"])
        ctx.nontrivial = bool(got["faults"] or got["levels"])
        ctx.sig = repr((sc["settings"], [o[:2] for o in sc["ops"]], sorted(got["faults"])))
        ctx.samples = {"settings": sc["settings"], "history": [o[:2] if o[0] != "draw" else ["draw"] for o in sc["ops"]], "faults": got["faults"]}

    def history(self, sc, base, disturbed):
        """In a process of its own: the whole history, with or without
        everything that must not matter."""
        home = os.path.join(base, "home")
        log_dir = os.path.join(home, ".log", "popsynth")
        os.makedirs(os.path.join(home, ".config", "popsynth"))
        os.makedirs(log_dir)
        os.environ["HOME"] = home
        os.makedirs(os.path.join(base, "work"))
        os.chdir(os.path.join(base, "work"))
        settings = sc["settings"] if disturbed else {"logging": {"console": {"on": False}, "file": {"on": False}}, "show_progress": False}
        with open(os.path.join(home, ".config/popsynth/popsynth_config.yml"), "w") as f:
            json.dump(settings, f)
        if disturbed and sc["old_logs"]:
            for n in ("usr.log", "dev.log"):
                p = os.path.join(log_dir, n)
                with open(p, "w") as f:
                    f.write("an old line\n")
                t = 1.7e9 - (10 if sc["old_logs"] == "today" else 3 * 86400)
                os.utime(p, (t, t))
        clock = Clock()
        self.clock = clock
        out, err = Console(), Console()
        real_out, real_err = sys.stdout, sys.stderr
        sys.stdout, sys.stderr = out, err
        d = disk.Disk(os.path.join(home, ".log"))
        try:
            if disturbed:
                d.__enter__()
            return self.play(sc, disturbed, clock, out, err, d, log_dir)
        finally:
            if disturbed:
                d.__exit__(None, None, None)
            sys.stdout, sys.stderr = real_out, real_err

    def play(self, sc, disturbed, clock, out, err, d, log_dir):
        import logging
        import popsynth
        import popsynth.utils.logging as pl
        import canon
        import world
        err.mode = "ok"
        # progress bars write elsewhere: their errors are the caller's (C03)
        quiet = io.StringIO()
        import tqdm
        old_init = tqdm.tqdm.__init__

        def init(self, *a, **kw):
            kw.setdefault("file", quiet)
            old_init(self, *a, **kw)

        tqdm.tqdm.__init__ = init
        faults, probes, states = {}, {}, []
        names = sorted(n for n, l in logging.root.manager.loggerDict.items()
                       if n.startswith("popsynth.") and isinstance(l, logging.Logger))
        loggers = [logging.getLogger(n) for n in names]
        m = {"silenced": None, "muted": False, "w": False, "disk_ok": True}
        levels = []
        usr = os.path.join(log_dir, "usr.log")
        dev = os.path.join(log_dir, "dev.log")

        def note(k):
            faults[k] = faults.get(k, 0) + 1

        def size(p):
            try:
                return os.stat(p).st_size
            except OSError:
                return -1

        def emitted(level, text="probe", lg=None):
            """Which sinks a record of this level reaches."""
            n0, u0, d0 = sizes()
            put(lg or loggers[level % len(loggers)], level, text)
            n1, u1, d1 = sizes()
            return n1 > n0, u1 > u0, d1 > d0

        def sizes():
            """What each sink has taken.  Once a log file has been replaced,
            filled or failed, what reaches it late is nothing new."""
            return (len(out.text),) + ((size(usr), size(dev)) if m["disk_ok"] else (0, 0))

        def put(lg, level, text, *args):
            try:
                lg.log(level, text, *args)
            except Exception as e:
                raise Violation("logging-call-failed", f"a log call raised {type(e).__name__}: {e}")

        def probe():
            """Levels in force, seen from outside: what gets through."""
            table = [emitted(l) for l in PROBE_LEVELS]
            return [t[0] for t in table], [t[1] for t in table] if m["disk_ok"] else None

        def healthy():
            return out.mode == "ok" and m["fault"] is None

        m["fault"] = None

        def call(k, arg):
            f = getattr(popsynth, k)
            f(logging.getLevelName(arg) if False else arg) if arg is not None else f()

        def same(a, b, w):
            """Levels equal, where they can be compared."""
            for x, y in zip(a, b):
                if x is None or y is None:
                    continue
                for l, p, q in zip(PROBE_LEVELS, x, y):
                    if p != q and not (l == 30 and w):
                        return False
            return True

        # specifications with quantile boundaries are resolved without any logging fault
        with _Ctx() as c:
            specs = [world.resolve(s, c) for s in sc["specs"]]
        synths = [world.build(s) for s in specs]
        pops = []
        results = []
        recent = []

        def work(op):
            k = op[0]
            if k == "draw":
                p = world.draw(synths[op[1] % len(synths)], op[2])
                pops.append(p)
                return canon.digest(canon.fields(p))
            if k in ("save", "add"):
                if not pops:
                    return "nothing"
                p = pops[op[1] % len(pops)]
                if k == "save":
                    p.writeto(op[2])
                    return canon.digest(canon.fields(popsynth.Population.from_file(op[2])))
                if not os.path.exists(op[2]):
                    return "nothing"
                g = f"g{len(results)}"
                p.addto(op[2], g)
                return canon.digest(canon.fields(popsynth.Population.from_group(op[2], g)))
            if k in ("load", "reload"):
                if not os.path.exists(op[2]):
                    return "nothing"
                p = popsynth.Population.from_file(op[2])
                if k == "reload":
                    pops.append(p)
                return canon.digest(canon.fields(p))
            i = op[1] % len(synths)
            if k == "yaml":
                synths[i].synth.write_to("s.yml")
                s = popsynth.PopulationSynth.from_file("s.yml")
                return canon.digest({"d": canon.description(s.to_dict())})
            if k == "from_dict":
                s = popsynth.PopulationSynth.from_dict(synths[i].synth.to_dict())
                return canon.digest(canon.object_fields(canon.fields(s.draw_survey())))
            if k == "clean":
                synths[i].synth.clean(reset=bool(op[1] % 2))
                return "clean"
            if k == "refuse":
                # calls that report an error
                try:
                    synths[i].synth.set_flux_selection(popsynth.SoftSelection()) if op[1] % 2 else synths[i].synth.set_distance_selection("no selector")
                except Exception as e:
                    return type(e).__name__
                return "accepted"

        for n, op in enumerate(sc["ops"]):
            if op[0] == "mode":
                if not disturbed:
                    if op[1] == "block" and op[2][1] == "draw":
                        results.append(("block", self.guard(work, ["draw", n, {}])))
                    continue
                k, arg = op[1], op[2]
                recent = (recent + [k])[-3:]
                if k == "emit":
                    lg = loggers[(n * 7) % len(loggers)]
                    if m["muted"] and arg[0] < logging.CRITICAL:
                        got = emitted(arg[0], arg[1], lg)
                        if any(got):
                            raise Violation("silenced-log-emitted", f"after silencing ({recent}), a record of level {arg[0]} of {lg.name} went to "
                                            f"{[s for s, g in zip(('the console', 'usr.log', 'dev.log'), got) if g]}")
                    else:
                        put(lg, arg[0], arg[1], *(["formatted"] if "%" in arg[1] else []))
                elif k in ("silence_logs", "quiet_mode"):
                    before = probe() if m["silenced"] is None and healthy() else None
                    call(k, None)
                    if m["silenced"] is None:
                        m["silenced"] = {"levels": before, "w": m["w"]}
                    m["muted"] = True
                    levels.append(k)
                    if healthy():
                        table = [emitted(l, "probe", lg) for l in PROBE_LEVELS if l < 50 for lg in loggers[n % 5::5]]
                        if any(any(t) for t in table):
                            raise Violation("silenced-log-emitted", f"{k} did not silence the logs after {recent}")
                elif k == "activate_logs":
                    call(k, None)
                    levels.append(k)
                    s = m["silenced"]
                    m["silenced"] = None
                    m["muted"] = False
                    if s is not None and s["levels"] is not None and healthy():
                        now = probe()
                        probes["levels_restored"] = probes.get("levels_restored", 0) + 1
                        if not same(s["levels"], now, m["w"] != s["w"]):
                            raise Violation("levels-not-restored", f"console, usr.log at levels {PROBE_LEVELS}: {now}, before silencing {s['levels']} (last calls {recent})")
                elif k == "loud_mode":
                    call(k, None)
                    m["silenced"] = None
                    m["muted"] = False
                elif k == "debug_mode":
                    call(k, None)
                    m["muted"] = False
                elif k in ("silence_warnings", "activate_warnings"):
                    call(k, None)
                    m["w"] = k == "silence_warnings"
                elif k == "update_logging_level":
                    popsynth.update_logging_level(arg)
                    m["muted"] = False
                elif k == "user_level":
                    if m["silenced"] is None:
                        h = pl.popsynth_usr_log_handler if arg[0] == "usr" else pl.popsynth_console_log_handler
                        h.setLevel(arg[1])
                elif k == "block":
                    exc = {None: None, "Raised": Raised, "KeyboardInterrupt": KeyboardInterrupt, "GeneratorExit": GeneratorExit,
                           "SystemExit": SystemExit, "OSError": OSError}[arg[0]]
                    before = probe() if healthy() else None
                    try:
                        with pl.silence_console_log():
                            if arg[1] == "emit":
                                got = [emitted(l, "inside", loggers[n % len(loggers)]) for l in PROBE_LEVELS if l < 50]
                                if m["muted"] and any(any(g) for g in got):
                                    raise Violation("silenced-log-emitted", f"silenced logs emitted within silence_console_log (last calls {recent})")
                            elif arg[1] == "draw":
                                results.append(("block", self.guard(work, ["draw", n, {}])))
                            elif arg[1] == "nested":
                                with pl.silence_console_log():
                                    put(loggers[-1], 30, "inside")
                            if exc is not None:
                                raise exc("body")
                    except BaseException as e:
                        if exc is None or type(e) is not exc:
                            raise
                    else:
                        if exc is not None:
                            raise Violation("block-swallowed-exception", f"silence_console_log swallowed {arg[0]}")
                    if before is not None and healthy():
                        now = probe()
                        probes["block_restored"] = probes.get("block_restored", 0) + 1
                        if not same(before, now, False):
                            raise Violation("levels-not-restored", f"after silence_console_log with {arg}: {now}, before {before}")
                else:
                    call(k, None)
                states.append((tuple(recent), m["fault"], m["muted"]))
            elif op[0] == "fault":
                if not disturbed:
                    continue
                k, arg = op[1], op[2]
                lib = disk.lib()
                if k == "errno":
                    for j in range(arg[2]):
                        d.rule(lib.popsim_ops() + arg[0] + j, disk.FAIL, getattr(errno, arg[1]))
                    m["fault"], m["disk_ok"] = k, False
                elif k == "gone":
                    for j in range(2):
                        d.rule(lib.popsim_ops() + j, disk.STICKY, getattr(errno, arg))
                    m["fault"], m["disk_ok"] = k, False
                elif k == "full":
                    d.quota(arg)
                    m["fault"], m["disk_ok"] = k, False
                elif k in ("remove_file", "remove_dir", "be_a_dir", "read_only"):
                    m["disk_ok"] = False
                    lib.popsim_stop()
                    self.break_logs(k, log_dir)
                    lib.popsim_start(d.base.encode(), -1, -1)
                elif k == "clock":
                    clock.jump(arg)
                    # rotation moves what was written to another file
                    m["disk_ok"] = False
                elif k == "console":
                    out.mode = arg
                elif k == "stderr":
                    err.mode = "eio"
                elif k == "heal":
                    lib.popsim_heal()
                    out.mode = err.mode = "ok"
                    m["fault"] = None
                note(k if k != "console" else "console_" + arg)
                states.append((tuple(recent), k, arg if isinstance(arg, str) else ""))
            else:
                if disturbed:
                    n0 = sizes() if m["muted"] and healthy() else None
                results.append((op[0], self.guard(work, op)))
                if disturbed and n0 is not None and sizes() != n0:
                    last = "".join(out.text[n0[0]:])[:300]
                    if "CRITICAL" not in last:
                        raise Violation("silenced-log-emitted", f"{op[0]} wrote to the logs although they are silenced: {last!r}")
        if disturbed:
            probes["console_errors_met"] = out.failed
            probes["disk_errors_met"] = disk.lib().popsim_fired()
        return {"results": results, "faults": faults, "probes": probes, "states": states, "levels": levels, "sim_time": clock.elapsed()}

    @staticmethod
    def guard(work, op):
        try:
            return ("ok", work(op))
        except Exception as e:
            return ("raised", type(e).__name__ + ": " + str(e)[:200])

    @staticmethod
    def break_logs(k, log_dir):
        if k == "remove_dir":
            shutil.rmtree(os.path.dirname(log_dir), ignore_errors=True)
            return
        for n in ("usr.log", "dev.log"):
            p = os.path.join(log_dir, n)
            if k == "read_only":
                if os.path.exists(p):
                    os.chmod(p, 0o400)
                continue
            if os.path.isfile(p):
                os.unlink(p)
                if k == "be_a_dir":
                    os.makedirs(p)

    def shrink(self, sc):
        n = len(sc["ops"])
        for size in (n // 2, n // 4, 2, 1):
            if size:
                for i in range(0, n, size):
                    yield dict(sc, ops=sc["ops"][:i] + sc["ops"][i + size:])
        if sc["old_logs"]:
            yield dict(sc, old_logs=None)
        if len(sc["specs"]) > 1:
            yield dict(sc, specs=sc["specs"][:1])
        for s in range(len(sc["specs"])):
            if sc["specs"][s].get("aux"):
                for t in engine.fork_call(_shrunk, sc["specs"][s]):
                    yield dict(sc, specs=sc["specs"][:s] + [t] + sc["specs"][s + 1:])


def _shrunk(spec):
    os.environ["HOME"] = os.path.join(engine.SCRATCH, "genhome")
    import world
    return list(world.shrink_spec(spec))[:12]


class _Ctx:
    """Just enough of a context to resolve specifications in this process."""

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        return False

    def fork(self, fn, *args):
        return engine.fork_call(fn, *args)


class Clock:
    """Wall clock of the process: moves a little with every look, and jumps."""

    def __init__(self):
        self.now = 1.7e9
        self.moved = 0.0
        time.time = self.read
        time.time_ns = lambda: int(self.read() * 1e9)

    def read(self):
        self.now += 0.01
        self.moved += 0.01
        return self.now

    def jump(self, by):
        self.now = max(0.0, self.now + by)
        self.moved += abs(by)

    def elapsed(self):
        return self.moved


CHECK = C11
