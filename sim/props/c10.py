"""C10: the first start is safe under concurrent starts, crashes and existing settings.

Processes are forked from one that has imported popsynth's dependencies but
never popsynth, and run under the scheduler below: every file-system call below
the home directory stops the process until the scheduler lets it go on.
"""
import hashlib
import importlib
import json
import os
import pickle
import random
import select
import shutil
import signal
import socket
import struct
import sys
import time
import traceback

import disk
import engine
from engine import Check, HarnessError, Violation

LEVELS = ("DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL")
DEFAULTS = {
    "logging": {"debug": False, "console": {"on": True, "level": "WARNING"}, "file": {"on": True, "level": "WARNING"}},
    "cosmology": {"Om": 0.307, "h0": 67.7},
    "show_progress": True,
}
CONFIG = ".config/popsynth/popsynth_config.yml"


def merged(user):
    def join(a, b):
        out = dict(a)
        for k, v in (b or {}).items():
            out[k] = join(a[k], v) if isinstance(a[k], dict) else v
        return out
    return join(DEFAULTS, user)


def gen_settings(rng):
    """What a user may have written: any part of the settings."""
    out = {}
    if rng.random() < 0.6:
        lg = out["logging"] = {}
        if rng.random() < 0.4:
            lg["debug"] = rng.random() < 0.7
        for k in ("console", "file"):
            if rng.random() < 0.5:
                h = lg[k] = {}
                if rng.random() < 0.6:
                    h["on"] = rng.random() < 0.4
                if rng.random() < 0.7:
                    h["level"] = rng.choice(LEVELS)
                if not h:
                    del lg[k]
        if not lg:
            del out["logging"]
    if rng.random() < 0.6:
        co = out["cosmology"] = {}
        if rng.random() < 0.7:
            co["Om"] = round(rng.uniform(0.1, 0.6), 3)
        if rng.random() < 0.7 or not co:
            co["h0"] = rng.choice([70, 50.5, round(rng.uniform(40, 90), 2)])
    if rng.random() < 0.5:
        out["show_progress"] = rng.random() < 0.3
    return out


def text(settings, style):
    """A settings file as a user may write it."""
    def block(d, ind):
        out = ""
        for k, v in d.items():
            # as in the file popsynth writes: a bare `on` is a boolean in YAML
            k = "'on'" if k == "on" else k
            if isinstance(v, dict):
                out += f"{ind}{k}:\n" + block(v, ind + "  ")
            else:
                out += f"{ind}{k}: {json.dumps(v) if not isinstance(v, str) else v}\n"
        return out
    if style == "flow":
        return json.dumps(settings) + "\n"
    if style == "comments":
        return "# my settings\n\n" + block(settings, "") + "\n# end\n"
    if style == "no_newline":
        return block(settings, "").rstrip("\n")
    return block(settings, "")


# ------------------------------------------------------------- a process


def started(home, entropy, ctl, via):
    """Body of a simulated process: a first use of the package."""
    os.environ["HOME"] = home
    os.chdir("/")
    engine.set_machine(entropy, clock=1.7e9 + entropy % 97)
    lib = disk.lib()
    lib.popsim_start(os.path.realpath(home).encode(), ctl, -1)
    try:
        importlib.import_module(via)
        import popsynth
        out = {"error": None}
    except BaseException as e:
        out = {"error": repr(e), "traceback": traceback.format_exc()[-2500:]}
    finally:
        lib.popsim_stop()
    if out["error"] is None:
        import logging
        from omegaconf import OmegaConf
        import popsynth.utils.logging as pl
        from popsynth.utils.cosmology import cosmology
        cfg = OmegaConf.to_container(popsynth.popsynth_config)
        names = sorted(n for n in logging.root.manager.loggerDict if n.startswith("popsynth.") and
                       isinstance(logging.root.manager.loggerDict[n], logging.Logger) and logging.getLogger(n).handlers)
        on = {"console": set(), "file": set(), "debug": set()}
        for n in names:
            h = logging.getLogger(n).handlers
            on["console"].add(pl.popsynth_console_log_handler in h)
            on["file"].add(pl.popsynth_usr_log_handler in h)
            on["debug"].add(pl.popsynth_dev_log_handler in h)
        out["config"] = cfg
        out["handlers"] = {k: sorted(v) for k, v in on.items()} if names else None
        out["levels"] = {"console": logging.getLevelName(pl.popsynth_console_log_handler.level),
                         "file": logging.getLevelName(pl.popsynth_usr_log_handler.level)}
        out["cosmology"] = {"Om": float(cosmology.Om), "h0": float(cosmology.h0)}
        from popsynth.utils.progress_bar import progress_bar
        probe = [1, 2]
        out["progress"] = progress_bar(probe, disable=True) is not probe
        out["logs"] = sorted(os.listdir(os.path.join(home, ".log/popsynth"))) if os.path.isdir(os.path.join(home, ".log/popsynth")) else None
    return out


def wrong(out, settings):
    """How a started process deviates from what the settings say; None if not."""
    if out["config"] != settings:
        return f"the settings in force are {out['config']}, not {settings}"
    lg = settings["logging"]
    for k in ("console", "file"):
        if out["levels"][k] != lg[k]["level"]:
            return f"level of the {k} log is {out['levels'][k]}, not {lg[k]['level']}"
        if out["handlers"] is not None and out["handlers"][k] != [bool(lg[k]["on"])]:
            return f"the {k} log is {'on' if not lg[k]['on'] else 'off'} although set otherwise"
    if out["handlers"] is not None and out["handlers"]["debug"] != [bool(lg["debug"])]:
        return "the developer log is not as set"
    for k in ("Om", "h0"):
        if abs(out["cosmology"][k] - settings["cosmology"][k]) > 1e-5 * abs(settings["cosmology"][k]):
            return f"cosmology uses {k}={out['cosmology'][k]}, not {settings['cosmology'][k]}"
    if out["progress"] != settings["show_progress"]:
        return f"progress bars are {'on' if out['progress'] else 'off'} although set otherwise"
    return None


class Proc:
    def __init__(self, n, body, others):
        self.n = n
        self.ops = 0
        self.result = None
        self.waiting = None
        a, b = socket.socketpair()
        r, w = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                a.close()
                os.close(r)
                for p in others:
                    p.sock.close()
                    os.close(p.pipe)
                # descriptors of the scheduler live where popsynth's cannot
                engine._limits(60)
                msg = ("ok", body(b.fileno()))
            except BaseException as e:
                msg = ("harness", traceback.format_exc())
            try:
                engine._write_all(w, pickle.dumps(msg))
            finally:
                os._exit(0)
        b.close()
        os.close(w)
        self.sock = a
        self.pipe = r
        self.done = False

    def recv(self, n):
        out = b""
        while len(out) < n:
            ready, _, _ = select.select([self.sock], [], [], 120)
            if not ready:
                raise HarnessError("a simulated process does nothing")
            b = self.sock.recv(n - len(out))
            if not b:
                return None
            out += b
        return out

    def settle(self):
        """Wait for the process' next operation or its end."""
        head = self.recv(8)
        if head is None:
            self.finish()
            return
        kind, ln = struct.unpack("<II", head)
        path = self.recv(ln).decode() if ln else ""
        self.waiting = (disk.KINDS[kind], path)

    def go(self, action=disk.GO, arg=0):
        self.waiting = None
        self.ops += 1
        self.sock.sendall(struct.pack("<ii", action, arg))

    def finish(self):
        data = b""
        while True:
            b = os.read(self.pipe, 1 << 16)
            if not b:
                break
            data += b
        os.close(self.pipe)
        self.sock.close()
        _, status = os.waitpid(self.pid, 0)
        self.done = True
        if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 137:
            self.result = "killed"
        elif data:
            kind, out = pickle.loads(data)
            if kind == "harness":
                raise HarnessError(out)
            self.result = out
        else:
            raise HarnessError(f"a simulated process ended with wait status {status}")


class C10(Check):
    cid = "C10"
    level = "fault_enumeration"
    technique = ("seeded simulation of several starting processes, scheduled one file-system call at a time, with crashes at any "
                 "call, stalled processes, users changing settings meanwhile and later restarts")
    rule = ("a run is one home directory with random earlier content and up to four processes importing the package under a random "
            "schedule, with crashes and user actions, followed by restarts; every process that was not killed must have started with "
            "the right settings; non-trivial if a process started without a complete configuration or two overlapped; distinct by "
            "home content, schedule and crashes")
    state_measure = "distinct (home content, operations two processes were stopped at together or a crash hit, outcome)"
    real = ["importing popsynth (all of it)", "the file system below a scratch home directory", "OmegaConf", "log handlers"]
    stub = ["the order of system calls of the processes (sim/shim.c)", "entropy and wall clock of each process"]
    assumptions = ["a system call is atomic, except writes, which a crash may cut short", "a user replaces a settings file in one step"]
    quick_n = 400
    thorough_n = 12000
    preload_popsynth = False
    wall_quick = 600

    def prepare(self):
        # compile the package's modules once, out of the tree
        sys.dont_write_bytecode = False
        sys.pycache_prefix = os.path.join(engine.SCRATCH, "pyc")

        def once():
            home = os.path.join(engine.SCRATCH, "once")
            os.makedirs(home)
            os.environ["HOME"] = home
            import popsynth
            base = os.path.realpath(os.path.dirname(popsynth.__file__))
            return base

        try:
            base = engine.fork_call(once)
        except engine.RemoteError:
            base = None
        if base is not None and base != os.path.join(os.path.realpath(engine.REPO), "popsynth"):
            raise HarnessError(f"popsynth was imported from {base}")

    VIA = ("popsynth", "popsynth", "popsynth", "popsynth.utils.cosmology", "popsynth.utils.logging", "popsynth.population", "popsynth.utils.configuration")

    def gen(self, rng, index, tier):
        home = {"dirs": [], "settings": None, "style": "block", "link": None, "missing": False, "name": rng.choice(["home", "home", "h o me", "hömé"])}
        kind = rng.choice(["empty", "empty", "empty", "dirs", "dirs", "user", "user", "user", "missing"])
        if kind == "missing":
            home["missing"] = True
        elif kind != "empty":
            home["dirs"] = rng.sample([".config", ".config/popsynth", ".log", ".log/popsynth"], rng.randrange(1, 5))
            if rng.random() < 0.3:
                home["logs"] = True
            if rng.random() < 0.25:
                home["link"] = rng.choice(["config", "popsynth", "log", "dangling"])
            if kind == "user":
                home["settings"] = gen_settings(rng)
                home["style"] = rng.choice(["block", "flow", "comments", "no_newline"])
                if rng.random() < 0.3 and home["link"] is None:
                    home["link"] = "file"
        n = rng.choice([1, 1, 2, 2, 2, 3, 4])
        kills = []
        for i in range(n):
            if rng.random() < 0.45:
                kills.append([i, rng.choice([rng.randrange(0, 12), rng.randrange(0, 30), rng.randrange(0, 30)]),
                              rng.choice(["before", "torn", "torn", "after"]), rng.randrange(1000)])
        user = []
        if rng.random() < 0.3:
            for _ in range(rng.choice([1, 1, 2])):
                user.append([rng.randrange(0, 25 * n), rng.choice(["place", "place", "place", "remove", "remove_dir", "remove_logs"]),
                             gen_settings(rng), rng.choice(["block", "flow", "comments"])])
        return {
            "home": home, "n": n, "via": [rng.choice(self.VIA) for _ in range(n)],
            "start": [0] + [rng.choice([0, 0, rng.randrange(0, 40)]) for _ in range(n - 1)],
            "plan": rng.choice(["random", "random", "burst", "pct", "stall", "lockstep"]), "plan_seed": rng.getrandbits(32),
            "kills": kills, "user": sorted(user), "later": rng.choice([1, 1, 2]), "power": rng.random() < 0.25, "entropy": rng.getrandbits(30),
        }

    # ------------------------------------------------------------------

    def build_home(self, sc, ctx):
        home = os.path.join(ctx.scratch, sc["home"]["name"])
        h = sc["home"]
        if h["missing"]:
            return home
        os.makedirs(home)
        if h["link"] in ("config", "popsynth", "log"):
            src = {"config": ".config", "popsynth": ".config/popsynth", "log": ".log"}[h["link"]]
            os.makedirs(os.path.join(home, "elsewhere"))
            os.makedirs(os.path.dirname(os.path.join(home, src)) or home, exist_ok=True)
            os.symlink(os.path.join(home, "elsewhere"), os.path.join(home, src))
        for d in h["dirs"]:
            os.makedirs(os.path.join(home, d), exist_ok=True)
        if h.get("logs"):
            os.makedirs(os.path.join(home, ".log/popsynth"), exist_ok=True)
            for n in ("usr.log", "dev.log"):
                with open(os.path.join(home, ".log/popsynth", n), "w") as f:
                    f.write("an old line\n")
        path = os.path.join(home, CONFIG)
        if h["settings"] is not None:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            if h["link"] == "file":
                with open(os.path.join(home, "my_settings.yml"), "w") as f:
                    f.write(text(h["settings"], h["style"]))
                os.symlink(os.path.join(home, "my_settings.yml"), path)
            else:
                with open(path, "w") as f:
                    f.write(text(h["settings"], h["style"]))
        elif h["link"] == "dangling":
            os.makedirs(os.path.dirname(path), exist_ok=True)
            os.symlink(os.path.join(home, "later.yml"), path)
        return home

    def run(self, sc, ctx):
        if "popsynth" in sys.modules:
            raise HarnessError("popsynth was imported by the scheduler")
        home = self.build_home(sc, ctx)
        path = os.path.join(home, CONFIG)
        rng = random.Random(sc["plan_seed"])
        user = {"settings": sc["home"]["settings"], "text": None}
        if user["settings"] is not None:
            user["text"] = text(user["settings"], sc["home"]["style"])
        procs = []
        accept = {}         # process -> settings that were in force while it started
        step = 0
        kills = {(k[0], k[1]): k for k in sc["kills"]}
        pending = list(sc["user"])
        to_start = sorted(range(sc["n"]), key=lambda i: (sc["start"][i], i))
        prio = [rng.random() for _ in range(sc["n"])]
        stalled = rng.randrange(sc["n"])
        stall_at = rng.randrange(0, 25)
        changes = sorted(rng.randrange(0, 30 * sc["n"]) for _ in range(2))
        last = None
        overlap = False
        fresh = not os.path.exists(path)

        def in_force():
            return merged(user["settings"])

        def check_file(when):
            if user["text"] is not None:
                try:
                    with open(path) as f:
                        now = f.read()
                except OSError as e:
                    now = repr(e)
                if now != user["text"]:
                    raise Violation("user-settings-modified", f"{when}: the user's settings file now holds {now!r}, not {user['text']!r}")

        def check_result(p):
            if p.result == "killed":
                return
            if p.result["error"] is not None:
                raise Violation("start-failed", f"process {p.n} ({sc['via'][p.n]}): {p.result['error']}\n{p.result['traceback']}")
            bad = [wrong(p.result, s) for s in accept[p.n]]
            if all(b is not None for b in bad):
                raise Violation("wrong-settings", f"process {p.n}: {bad[-1]}")
            ctx.event("ok", p.n, p.ops)

        while True:
            for p in procs:
                if not p.done and p.waiting is None:
                    p.settle()
                    if p.done:
                        ctx.event("end", p.n, p.result if p.result == "killed" else "")
                        check_result(p)
            check_file(f"step {step}")
            while pending and pending[0][0] <= step:
                _, what, settings, style = pending.pop(0)
                ctx.event("user", what)
                ctx.fault("user_" + what)
                if what == "place":
                    os.makedirs(os.path.dirname(path), exist_ok=True)
                    user["settings"], user["text"] = settings, text(settings, style)
                    tmp = os.path.join(home, "editor.tmp")
                    with open(tmp, "w") as f:
                        f.write(user["text"])
                    os.replace(tmp, os.path.realpath(path))
                elif what == "remove_logs":
                    # only between starts: nobody promises to survive this in the middle
                    if not any(not p.done for p in procs):
                        shutil.rmtree(os.path.realpath(os.path.join(home, ".log")), ignore_errors=True)
                        if os.path.islink(os.path.join(home, ".log")):
                            os.unlink(os.path.join(home, ".log"))
                elif not any(not p.done for p in procs):
                    user["settings"] = user["text"] = None
                    if os.path.lexists(path):
                        os.unlink(path)
                    if what == "remove_dir":
                        d = os.path.dirname(path)
                        if os.path.islink(d):
                            os.unlink(d)
                        elif os.path.isdir(d):
                            shutil.rmtree(d)
                for q in procs:
                    if not q.done:
                        accept[q.n].append(in_force())
            alive = [p for p in procs if not p.done]
            ready = [("go", p.n) for p in alive]
            if to_start and (sc["start"][to_start[0]] <= step or not alive):
                ready.append(("start", to_start[0]))
            if not ready:
                break
            if len(alive) > 1:
                overlap = True
                ctx.state("pair", sorted(p.waiting[0] + ":" + self.what(p.waiting[1], home) for p in alive)[:2])
            # choose
            plan = sc["plan"]
            if plan == "pct":
                if changes and changes[0] <= step:
                    changes.pop(0)
                    prio[max(ready, key=lambda r: prio[r[1]])[1]] = -step
                pick = max(ready, key=lambda r: prio[r[1]])
            elif plan == "stall":
                others = [r for r in ready if r[1] != stalled or (r[0] == "go" and procs_by(procs, r[1]).ops < stall_at)]
                pick = rng.choice(others or ready)
            elif plan == "burst":
                same = [r for r in ready if r[1] == last]
                pick = same[0] if same and rng.random() < 0.85 else rng.choice(ready)
            elif plan == "lockstep":
                later = [r for r in ready if last is not None and r[1] > last]
                pick = (later or ready)[0]
            else:
                pick = rng.choice(ready)
            last = pick[1]
            step += 1
            if pick[0] == "start":
                to_start.remove(pick[1])
                accept[pick[1]] = [in_force()]
                i = pick[1]
                procs.append(Proc(i, lambda fd: started(home, sc["entropy"] + i, fd, sc["via"][i]), [p for p in procs if not p.done]))
                continue
            p = procs_by(procs, pick[1])
            kind, where = p.waiting
            ctx.event(p.n, kind, self.what(where, home))
            k = kills.get((p.n, p.ops))
            if k is None:
                p.go()
            else:
                ctx.fault("crash_" + k[2])
                ctx.state("crash", kind, self.what(where, home), k[2])
                p.go({"before": disk.DIE, "torn": disk.DIE_PART, "after": disk.DIE_AFTER}[k[2]], k[3])
        ctx.steps += step
        check_file("after the concurrent starts")

        for i in range(sc["later"]):
            self.later(sc, ctx, home, 10 + i, in_force())
            check_file("after a later start")
        if sc["power"] and user["text"] is None:
            self.power(sc, ctx, rng)
        killed = any(p.result == "killed" for p in procs)
        ctx.probe("plan_" + sc["plan"])
        if overlap:
            ctx.probe("overlapping_starts")
        if killed:
            ctx.probe("killed")
        ctx.nontrivial = overlap or fresh or killed
        ctx.sig = repr((sc["home"], sc["n"], sc["plan"], ctx.events[-200:]))
        ctx.samples = {"home": sc["home"], "processes": sc["n"], "plan": sc["plan"], "crashes": sc["kills"], "user": [u[1] for u in sc["user"]], "operations": step}

    @staticmethod
    def what(path, home):
        r = os.path.relpath(path, home)
        return "config.tmp" if r.endswith(".tmp") else r

    def later(self, sc, ctx, home, n, settings):
        p = Proc(n, lambda fd: started(home, sc["entropy"] + 100 + n, fd, "popsynth"), [])
        while not p.done:
            if p.waiting is None:
                p.settle()
            else:
                p.go()
        if p.result["error"] is not None:
            raise Violation("later-start-failed", f"{p.result['error']}\n{p.result['traceback']}")
        w = wrong(p.result, settings)
        if w is not None:
            raise Violation("later-start-has-other-settings", w)
        ctx.event("later", p.ops)

    def power(self, sc, ctx, rng):
        """The machine dies during or after a first start: the next one works."""
        home = os.path.join(ctx.scratch, "first")
        os.makedirs(home)
        before = disk.snapshot(home)
        log = os.path.join(ctx.scratch, "first.log")
        n = os.fork()
        if n == 0:
            try:
                fd = os.open(log, os.O_WRONLY | os.O_CREAT, 0o600)
                os.environ["HOME"] = home
                engine.set_machine(sc["entropy"] + 7)
                disk.lib().popsim_start(os.path.realpath(home).encode(), -1, fd)
                import popsynth  # noqa
                disk.lib().popsim_stop()
            finally:
                os._exit(0)
        os.waitpid(n, 0)
        ops = disk.read_log(log)
        for i in range(2):
            state, how = disk.crash_state(before, ops, os.path.realpath(home), rng)
            after = os.path.join(ctx.scratch, f"after{i}")
            disk.put(state, after)
            ctx.fault("power_failure")
            try:
                self.later(sc, ctx, after, 20 + i, DEFAULTS)
            except Violation as v:
                raise Violation(v.cls, f"after a power failure {how}: {v.detail}")

    def shrink(self, sc):
        for l in engine_shrink(sc["kills"]):
            yield dict(sc, kills=l)
        for l in engine_shrink(sc["user"]):
            yield dict(sc, user=l)
        if sc["n"] > 1:
            n = sc["n"] - 1
            yield dict(sc, n=n, via=sc["via"][:n], start=sc["start"][:n], kills=[k for k in sc["kills"] if k[0] < n])
        if sc["power"]:
            yield dict(sc, power=False)
        if sc["later"] > 1:
            yield dict(sc, later=1)
        h = sc["home"]
        if h["settings"]:
            for k in list(h["settings"]):
                yield dict(sc, home=dict(h, settings={a: b for a, b in h["settings"].items() if a != k}))
        if h["link"]:
            yield dict(sc, home=dict(h, link=None))
        for l in engine_shrink(h["dirs"]):
            yield dict(sc, home=dict(h, dirs=l))
        if h["name"] != "home":
            yield dict(sc, home=dict(h, name="home"))
        for p in ("lockstep", "stall"):
            if sc["plan"] != p:
                yield dict(sc, plan=p)
        if any(v != "popsynth" for v in sc["via"]):
            yield dict(sc, via=["popsynth"] * sc["n"])
        for i, s in enumerate(sc["start"]):
            if s:
                yield dict(sc, start=sc["start"][:i] + [0] + sc["start"][i + 1:])


def procs_by(procs, n):
    for p in procs:
        if p.n == n:
            return p


def engine_shrink(items):
    n = len(items)
    if n > 3:
        yield items[:n // 2]
        yield items[n // 2:]
    for i in range(n):
        yield items[:i] + items[i + 1:]


CHECK = C10
