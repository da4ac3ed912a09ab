"""Simulation engine: seeded scenarios, isolated executions, shrinking, replay
files and evidence.

A scenario is a JSON document made from one integer (VERIF_SEED, property,
index).  Executing it is a pure function of the document and of /repo's working
tree; every execution happens in a process forked from one pristine master that
has imported popsynth and done nothing else.
"""
import collections
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import select
import shutil
import signal
import struct
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = os.environ.get("POPSIM_SCRATCH", "/tmp")
REPO = os.environ.get("POPSIM_REPO", "/repo")
CPU_LIMIT = 60          # CPU seconds one execution may use
WALL_LIMIT = 420        # wall seconds after which an execution is given up
MAX_VIOLATION_RERUNS = 5


class Violation(Exception):
    """The property is broken.  `cls` identifies the kind of violation."""

    def __init__(self, cls, detail="", **info):
        super().__init__(f"{cls}: {detail}")
        self.cls = cls
        self.detail = str(detail)[:4000]
        self.info = info


class HarnessError(Exception):
    pass


class Hang(Exception):
    """A forked execution used up its CPU budget."""


def scenario_rng(seed, cid, index):
    h = hashlib.sha256(f"popsim|{seed}|{cid}|{index}".encode()).digest()
    return random.Random(int.from_bytes(h[:16], "big"))


def normal(obj):
    """JSON round trip: exactly what a replay file will hold."""
    return json.loads(json.dumps(obj))


# --------------------------------------------------------------- isolation


def _write_all(fd, data):
    mv = memoryview(data)
    while len(mv):
        n = os.write(fd, mv)
        mv = mv[n:]


def _read_exact(fd, n):
    out = b""
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            return None
        out += b
    return out


def _send(fd, obj):
    data = pickle.dumps(obj)
    _write_all(fd, struct.pack("<Q", len(data)) + data)


def _recv(fd):
    head = _read_exact(fd, 8)
    if head is None:
        return None
    return pickle.loads(_read_exact(fd, struct.unpack("<Q", head)[0]))


def _limits(cpu=None):
    c = int(cpu or CPU_LIMIT)
    resource.setrlimit(resource.RLIMIT_CPU, (c, c + 5))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def fork_call(fn, *args, wall=WALL_LIMIT, cpu=None, may_die=False):
    """Run fn in a forked process; returns its (pickled) result.

    Violations and harness errors travel back; a process ended by its CPU limit
    raises Hang; any other death raises HarnessError.
    """
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            gc.disable()
            _limits(cpu)
            try:
                msg = ("ok", fn(*args))
            except Violation as e:
                msg = ("violation", e.cls, e.detail, e.info)
            except Hang as e:
                msg = ("hang", str(e))
            except BaseException as e:
                msg = ("error", repr(e), traceback.format_exc(), from_popsynth(e))
            try:
                _send(w, msg)
            except BrokenPipeError:
                pass
        except BaseException:
            code = 91
        finally:
            os._exit(code)
    os.close(w)
    msg, status = _collect(r, pid, wall)
    if msg is None:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGXCPU,):
            raise Hang("an execution used up its CPU budget")
        if status == -1:
            raise HarnessError("a forked execution exceeded its wall limit")
        if may_die and os.WIFEXITED(status) and os.WEXITSTATUS(status) == 137:
            return ("died", 137)
        if may_die and os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS):
            return ("died", -os.WTERMSIG(status))
        raise HarnessError(f"a forked execution died (wait status {status})")
    if msg[0] == "ok":
        return msg[1]
    if msg[0] == "violation":
        raise Violation(msg[1], msg[2], **msg[3])
    if msg[0] == "hang":
        raise Hang(msg[1])
    raise RemoteError(msg[1], msg[2], msg[3])


class RemoteError(Exception):
    def __init__(self, what, tb, popsynth):
        super().__init__(what)
        self.what = what
        self.tb = tb
        self.popsynth = popsynth


def _collect(fd, pid, wall):
    """Read one message of process pid; returns (message, wait status)."""
    end = time.monotonic() + wall
    buf = b""
    need = 8
    have_head = False
    msg = None
    while True:
        left = end - time.monotonic()
        if left <= 0:
            try:
                os.kill(pid, signal.SIGKILL)
            except OSError:
                pass
            os.waitpid(pid, 0)
            os.close(fd)
            return None, -1
        ready, _, _ = select.select([fd], [], [], min(left, 5.0))
        if not ready:
            continue
        b = os.read(fd, 1 << 16)
        if not b:
            break
        buf += b
        if not have_head and len(buf) >= 8:
            need = 8 + struct.unpack("<Q", buf[:8])[0]
            have_head = True
        if have_head and len(buf) >= need:
            msg = pickle.loads(buf[8:need])
            break
    os.close(fd)
    _, status = os.waitpid(pid, 0)
    return msg, status


def from_popsynth(exc):
    """True if the exception came out of popsynth's own code (called by us)."""
    pop = os.path.join(os.path.realpath(REPO), "popsynth") + os.sep
    tb = exc.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(pop):
            return True
        tb = tb.tb_next
    if exc.__cause__ is not None and from_popsynth(exc.__cause__):
        return True
    return False


# -------------------------------------------------- entropy and wall clock

_real_time = time.time


def set_machine(entropy, clock=1.7e9, tick=1e-4):
    """Give this process a simulated entropy source and wall clock, and start
    the global generators from it."""
    import numpy
    import secrets  # noqa
    stream = random.Random(entropy)

    def urandom(n):
        return bytes(stream.getrandbits(8) for _ in range(n))

    os.urandom = urandom
    random._urandom = urandom
    now = [float(clock)]

    def wall():
        now[0] += tick
        return now[0]

    time.time = wall
    time.time_ns = lambda: int(wall() * 1e9)
    random.seed(entropy)
    numpy.random.seed(entropy % (2 ** 32))


# ------------------------------------------------------------------ context


class Context:
    """What an execution may use, and where it records what it did."""

    def __init__(self, tier, scratch):
        self.tier = tier
        self.scratch = scratch
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.events = []
        self.states = set()
        self.sim_time = 0.0
        self.steps = 0
        self.nontrivial = False
        self.sig = None
        self.samples = None

    def fault(self, kind, n=1):
        self.faults[kind] += n

    def probe(self, name, n=1):
        self.probes[name] += n

    def event(self, *what):
        self.events.append(repr(what))

    def state(self, *what):
        self.states.add(hashlib.sha1(repr(what).encode()).hexdigest()[:16])

    def fork(self, fn, *args, **kw):
        return fork_call(fn, *args, **kw)


def execute(check, scenario, tier):
    """Run one scenario in this (already isolated) process."""
    scratch = os.path.join(SCRATCH, "run", f"{os.getpid()}")
    os.makedirs(scratch, exist_ok=True)
    ctx = Context(tier, scratch)
    out = {"status": "ok"}
    try:
        os.chdir(scratch)
        if check.simulate_machine:
            set_machine(20260101)
        check.run(scenario, ctx)
    except Violation as e:
        out = {"status": "violation", "cls": e.cls, "detail": e.detail}
    except Hang as e:
        out = {"status": "violation", "cls": "hang", "detail": str(e)}
    except RemoteError as e:
        if e.popsynth:
            out = {"status": "violation", "cls": f"unexpected-error:{e.what.split('(')[0]}", "detail": e.what + "\n" + e.tb[-3000:]}
        else:
            out = {"status": "harness", "detail": e.what + "\n" + e.tb}
    except BaseException as e:
        tb = traceback.format_exc()
        if not isinstance(e, HarnessError) and from_popsynth(e):
            out = {"status": "violation", "cls": f"unexpected-error:{type(e).__name__}", "detail": tb[-3000:]}
        else:
            out = {"status": "harness", "detail": tb}
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    out["faults"] = dict(ctx.faults)
    out["probes"] = dict(ctx.probes)
    out["states"] = list(ctx.states)
    out["sim_time"] = ctx.sim_time
    out["steps"] = ctx.steps
    out["nontrivial"] = bool(ctx.nontrivial)
    out["sig"] = ctx.sig
    out["sample"] = ctx.samples
    out["digest"] = hashlib.sha256("\n".join(ctx.events).encode()).hexdigest()[:24]
    out["n_events"] = len(ctx.events)
    return out


def run_isolated(check, scenario, tier):
    """Execute a scenario in a process forked from here; never raises."""
    try:
        return fork_call(execute, check, scenario, tier, wall=check.wall_limit, cpu=check.cpu_limit)
    except Hang:
        return _blank("violation", cls="hang", detail="the run used up its CPU budget without finishing")
    except HarnessError as e:
        return _blank("harness", detail=str(e))
    except RemoteError as e:
        return _blank("harness", detail=e.what + "\n" + e.tb)
    except Violation as e:
        return _blank("violation", cls=e.cls, detail=e.detail)


def _blank(status, **kw):
    out = {"status": status, "faults": {}, "probes": {}, "states": [], "sim_time": 0.0, "steps": 0,
           "nontrivial": False, "sig": None, "sample": None, "digest": "", "n_events": 0}
    out.update(kw)
    return out


# ------------------------------------------------------- other interpreters

#: what an execution's interpreter was started with
ENV_HERE = {"jit": os.environ.get("NUMBA_DISABLE_JIT") != "1", "hashseed": os.environ.get("PYTHONHASHSEED", "0")}


def remote(check, env, method, args):
    """Call check.<method>(arg, ctx) for every arg, each in a forked process of
    a newly started interpreter with the given settings; returns the outcomes."""
    import subprocess
    import tempfile
    d = tempfile.mkdtemp(prefix="remote-", dir=SCRATCH)
    try:
        with open(os.path.join(d, "in"), "wb") as f:
            pickle.dump((method, args), f)
        e = dict(os.environ)
        e["PYTHONHASHSEED"] = str(env.get("hashseed", "0"))
        e["HOME"] = os.path.join(d, "home")
        os.makedirs(e["HOME"])
        if env.get("jit"):
            e.pop("NUMBA_DISABLE_JIT", None)
            e["NUMBA_CACHE_DIR"] = os.path.join(d, "numba")
        else:
            e["NUMBA_DISABLE_JIT"] = "1"
        r = subprocess.run([sys.executable, "-W", "ignore", os.path.abspath(__file__), check.cid, "--remote",
                            os.path.join(d, "in"), os.path.join(d, "out")],
                           env=e, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if r.returncode != 0:
            raise HarnessError("another interpreter failed: " + r.stderr.decode(errors="replace")[-3000:])
        with open(os.path.join(d, "out"), "rb") as f:
            return pickle.load(f)
    finally:
        shutil.rmtree(d, ignore_errors=True)


class _RemoteCheck:
    """Runs one method of a check as if it were a check."""

    def __init__(self, check, method):
        self.check = check
        self.method = method
        self.cid = check.cid
        self.wall_limit = check.wall_limit
        self.cpu_limit = check.cpu_limit
        self.simulate_machine = check.simulate_machine

    def run(self, scenario, ctx):
        ctx.samples = getattr(self.check, self.method)(scenario, ctx)


def remote_main(master, inp, out):
    with open(inp, "rb") as f:
        method, args = pickle.load(f)
    master.check.warm_up()
    m = Master(_RemoteCheck(master.check, method), master.seed, master.tier)
    m.workers = min(m.workers, len(args))
    results = {}
    for res in m.map(list(enumerate(args)), wall=600, stop_on_violation=False):
        results[res["index"]] = res
    with open(out, "wb") as f:
        pickle.dump([results[i] for i in range(len(args))], f)
    return 0


class Check:
    """Base class of a property's check."""

    def warm_up(self):
        """Called in another interpreter before its first run."""

    cid = None
    level = "exploration"
    technique = ""
    rule = ""
    state_measure = "distinct (scenario shape, outcome) signatures"
    real = []
    stub = []
    assumptions = []
    quick_n = 200
    thorough_n = 4000
    wall_limit = WALL_LIMIT
    cpu_limit = CPU_LIMIT
    preload_popsynth = True
    simulate_machine = True
    wall_quick = 420
    wall_thorough = 3 * 3600

    def before_import(self):
        """Called before popsynth is imported."""

    def prepare(self):
        """Called once in the pristine master."""

    def gen(self, rng, index, tier):
        raise NotImplementedError

    def run(self, scenario, ctx):
        raise NotImplementedError

    def shrink(self, scenario):
        """Yield simpler scenarios, most drastic first."""
        return iter(())

    def extra(self, seed, tier, master):
        """Additional work outside forked scenarios; yields result dicts
        carrying their own 'scenario'."""
        return iter(())


# ------------------------------------------------------------------ master


def _silence_worker():
    null = os.open(os.devnull, os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    os.dup2(null, 2)
    os.close(null)


class Master:
    def __init__(self, check, seed, tier):
        self.check = check
        self.seed = seed
        self.tier = tier
        self.workers = int(os.environ.get("POPSIM_WORKERS", os.cpu_count() or 4))

    def scenario(self, index):
        rng = scenario_rng(self.seed, self.check.cid, index)
        return normal(self.check.gen(rng, index, self.tier))

    def _start_worker(self, others=()):
        """others: our ends of the pipes of the workers started before; a later
        worker must not keep them open, or the earlier one never sees the end
        of its input."""
        cr, cw = os.pipe()
        rr, rw = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(cw)
                os.close(rr)
                for fd in others:
                    os.close(fd)
                if not os.environ.get("POPSIM_LOUD"):
                    _silence_worker()
                gc.freeze()
                while True:
                    task = _recv(cr)
                    if task is None:
                        break
                    kind, index, scenario = task
                    try:
                        if scenario is None:
                            scenario = self.scenario(index)
                        res = run_isolated(self.check, scenario, self.tier)
                    except BaseException:
                        res = _blank("harness", detail=traceback.format_exc())
                    res["index"] = index
                    _send(rw, res)
            finally:
                os._exit(0)
        os.close(cr)
        os.close(rw)
        return {"pid": pid, "cmd": cw, "res": rr, "busy": False}

    def map(self, tasks, wall, stop_on_violation=True):
        """tasks: iterable of (index, scenario or None); yields results as they
        come, lowest index first is NOT guaranteed."""
        tasks = iter(tasks)
        pool = []
        for _ in range(self.workers):
            pool.append(self._start_worker([fd for w in pool for fd in (w["cmd"], w["res"])]))
        end = time.monotonic() + wall
        stopping = False
        self.capped = False
        try:
            def feed(wk):
                nonlocal stopping
                if stopping:
                    return
                if time.monotonic() > end:
                    stopping = True
                    self.capped = True
                    return
                try:
                    index, sc = next(tasks)
                except StopIteration:
                    stopping = True
                    return
                _send(wk["cmd"], ("run", index, sc))
                wk["busy"] = True

            for wk in pool:
                feed(wk)
            while any(wk["busy"] for wk in pool):
                fds = {wk["res"]: wk for wk in pool if wk["busy"]}
                ready, _, _ = select.select(list(fds), [], [], 5.0)
                for fd in ready:
                    wk = fds[fd]
                    res = _recv(fd)
                    wk["busy"] = False
                    if res is None:
                        raise HarnessError("a simulation worker died")
                    if res["status"] == "violation" and stop_on_violation and not res.get("known"):
                        stopping = stopping or self._is_new(res)
                    if res["status"] == "harness":
                        stopping = True
                    feed(wk)
                    yield res
        finally:
            for wk in pool:
                try:
                    os.close(wk["cmd"])
                    os.close(wk["res"])
                except OSError:
                    pass
            for wk in pool:
                try:
                    os.kill(wk["pid"], signal.SIGKILL)
                except OSError:
                    pass
                try:
                    os.waitpid(wk["pid"], 0)
                except OSError:
                    pass

    # ---- known findings

    def known(self):
        path = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(path):
            return []
        with open(path) as f:
            data = json.load(f)
        return [k for k in data.get("known", []) if k["property"] == self.check.cid]

    def _is_new(self, res):
        return self._match_known(res) is None

    def _match_known(self, res):
        for k in self.known():
            if k["class"] == res.get("cls") and (not k.get("detail_contains") or k["detail_contains"] in res.get("detail", "")):
                return k
        return None

    # ---- shrinking

    def minimise(self, scenario, cls, budget=40.0, runs=250):
        end = time.monotonic() + budget
        done = 0
        current = scenario
        improved = True
        while improved and time.monotonic() < end and done < runs:
            improved = False
            seen = set()
            cands = self.check.shrink(json.loads(json.dumps(current)))
            batch = []
            for cand in cands:
                cand = normal(cand)
                key = json.dumps(cand, sort_keys=True)
                if key in seen or cand == current:
                    continue
                seen.add(key)
                batch.append(cand)
                if len(batch) >= 64:
                    break
            # run candidates in order, several at a time; take the first that fails
            for i in range(0, len(batch), self.workers):
                if time.monotonic() > end or done >= runs:
                    break
                part = batch[i:i + self.workers]
                results = {}
                for res in self.map(list(enumerate(part)), wall=max(1.0, end - time.monotonic()), stop_on_violation=False):
                    results[res["index"]] = res
                done += len(part)
                hit = [j for j in sorted(results) if results[j]["status"] == "violation" and results[j]["cls"] == cls]
                if hit:
                    current = part[hit[0]]
                    improved = True
                    break
        return current, done


def load_check(cid):
    mod = importlib.import_module("props." + cid.lower())
    return mod.CHECK()


def preload(check):
    import numpy  # noqa
    import scipy.stats, scipy.special, scipy.integrate  # noqa
    import h5py, yaml, networkx, pandas, omegaconf  # noqa
    import astropy.coordinates  # noqa
    import matplotlib  # noqa
    import IPython.display  # noqa
    import tqdm, tqdm.auto  # noqa
    import numba  # noqa
    import ipyvolume, pythreejs, betagen, colorama, class_registry, dotmap  # noqa
    import pkg_resources  # noqa
    tqdm.tqdm.monitor_interval = 0
    tqdm.auto.tqdm.monitor_interval = 0
    check.before_import()
    if check.preload_popsynth:
        import popsynth
        base = os.path.realpath(os.path.dirname(popsynth.__file__))
        if base != os.path.join(os.path.realpath(REPO), "popsynth"):
            raise HarnessError(f"popsynth was imported from {base}")
        import world  # noqa: registers the simulated samplers


def run_check(cid, argv):
    t0 = _real_time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    sys.path.insert(0, os.path.join(VERIF, "sim"))
    sys.modules.setdefault("engine", sys.modules[__name__])
    check = load_check(cid)
    preload(check)
    check.prepare()
    gc.collect()
    gc.freeze()
    master = Master(check, seed, tier)

    if "--remote" in argv:
        i = argv.index("--remote")
        return remote_main(master, argv[i + 1], argv[i + 2])
    if "--replay" in argv:
        return replay(master, argv[argv.index("--replay") + 1])
    if "--scenario" in argv:
        i = int(argv[argv.index("--scenario") + 1])
        sc = master.scenario(i)
        print(json.dumps(sc, indent=1))
        print(json.dumps(run_isolated(check, sc, tier), indent=1))
        return 0

    print(f"popsim {cid}: VERIF_SEED={seed} tier={tier} workers={master.workers}", flush=True)
    n = int(os.environ.get("POPSIM_N", check.thorough_n if tier == "thorough" else check.quick_n))
    start = int(os.environ.get("POPSIM_START", "0"))
    wall = float(os.environ.get("POPSIM_WALL", check.wall_thorough if tier == "thorough" else check.wall_quick))

    agg = Aggregate(check, master)
    t1 = _real_time()
    for res in master.map(((i, None) for i in range(start, start + n)), wall):
        agg.add(res)
    if not agg.bad() and not os.environ.get("POPSIM_NOEXTRA"):
        for res in check.extra(seed, tier, master):
            agg.add(res)
    sim_wall = _real_time() - t1
    if os.environ.get("POPSIM_DIGESTS"):
        with open(os.environ["POPSIM_DIGESTS"], "w") as f:
            json.dump({str(k): v for k, v in sorted(agg.digests.items(), key=lambda kv: str(kv[0]))}, f, indent=0)

    rc = 0
    replay_path = None
    if agg.violations:
        agg.violations.sort(key=lambda r: (isinstance(r["index"], str), str(r["index"]).zfill(12)))
        rc, replay_path = report(master, agg)
    elif agg.harness:
        r = agg.harness[0]
        print(f"harness error in run {r['index']}:\n{r['detail']}", file=sys.stderr)
        rc = 2
    elif agg.evaluations == 0:
        print("nothing was run", file=sys.stderr)
        rc = 2
    for k, count in agg.known_hits.items():
        print(f"KNOWN-FINDING: property={cid} {k} ({count} runs)")
    agg.write_evidence(seed, tier, _real_time() - t0, sim_wall)
    print(f"popsim {cid}: {agg.evaluations} runs, {len(agg.sigs)} distinct non-trivial, "
          f"{len(agg.states)} states, faults {dict(agg.faults)}, {_real_time() - t0:.1f} s", flush=True)
    if os.environ.get("POPSIM_PROBES") or "--probes" in argv:
        for k, v in sorted(agg.probes.items()):
            print("   probe", k, v)
    return rc


def report(master, agg):
    """Confirm, minimise and write the replay file of the first violation."""
    check = master.check
    flaky = None
    for res in agg.violations[:3]:
        scenario = res.get("scenario")
        if scenario is None:
            scenario = master.scenario(res["index"])
        confirmed = None
        for _ in range(MAX_VIOLATION_RERUNS):
            again = master_run(master, scenario)
            if again["status"] == "violation":
                confirmed = again
                break
        if confirmed is None:
            flaky = res
            continue
        cls = confirmed["cls"]
        small, tried = (scenario, 0)
        if "--no-shrink" not in sys.argv:
            small, tried = master.minimise(scenario, cls)
        final = master_run(master, small)
        if final["status"] != "violation":
            small, final = scenario, confirmed
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        doc = {
            "property": check.cid,
            "seed": master.seed,
            "tier": master.tier,
            "index": res["index"],
            "class": final["cls"],
            "detail": final["detail"],
            "event_digest": final["digest"],
            "minimised_with_runs": tried,
            "scenario": small,
            "original_scenario": scenario,
        }
        name = hashlib.sha256(json.dumps(small, sort_keys=True).encode()).hexdigest()[:12]
        path = os.path.join(VERIF, "replays", f"{check.cid}-{name}.json")
        with open(path, "w") as f:
            json.dump(doc, f, indent=1)
        print(f"property {check.cid} is broken in run {res['index']} (seed {master.seed}): {final['cls']}")
        print(final["detail"])
        print(f"VIOLATION property={check.cid} replay={path}", flush=True)
        return 1, path
    print(f"a violation was seen once and could not be reproduced: {flaky['cls']}: {flaky['detail']}", file=sys.stderr)
    return 2, None


def master_run(master, scenario):
    for res in master.map([(0, scenario)], wall=3600, stop_on_violation=False):
        return res


def replay(master, path):
    with open(path) as f:
        doc = json.load(f)
    res = master_run(master, doc["scenario"])
    print(json.dumps({k: res.get(k) for k in ("status", "cls", "detail", "digest")}, indent=1))
    if res["status"] == "violation":
        same = res["digest"] == doc["event_digest"]
        print(f"replayed: class {'same' if res['cls'] == doc['class'] else 'DIFFERENT'}, event log {'identical' if same else 'different'}")
        print(f"VIOLATION property={master.check.cid} replay={path}")
        return 1
    return 0 if res["status"] == "ok" else 2


class Aggregate:
    def __init__(self, check, master):
        self.check = check
        self.master = master
        self.evaluations = 0
        self.faults = collections.Counter()
        self.probes = collections.Counter()
        self.states = set()
        self.sigs = set()
        self.violations = []
        self.harness = []
        self.known_hits = collections.Counter()
        self.samples = []
        self.sim_time = 0.0
        self.steps = 0
        self.digests = {}

    def bad(self):
        return bool(self.violations or self.harness)

    def add(self, res):
        self.evaluations += 1
        self.faults.update(res["faults"])
        self.probes.update(res["probes"])
        self.states.update(res["states"])
        self.sim_time += res["sim_time"]
        self.steps += res["steps"]
        self.digests[res["index"]] = [res["status"], res["digest"], res["n_events"]]
        if res["nontrivial"] and res["sig"] is not None:
            self.sigs.add(res["sig"])
        if res["status"] == "violation":
            k = self.master._match_known(res)
            if k is not None:
                self.known_hits[k["what"]] += 1
            else:
                self.violations.append(res)
        elif res["status"] == "harness":
            self.harness.append(res)
        if res["sample"] is not None and res["nontrivial"] and len(self.samples) < 4:
            self.samples.append({"index": res["index"], "case": res["sample"]})

    def write_evidence(self, seed, tier, wall, sim_wall):
        c = self.check
        doc = {
            "property": c.cid,
            "tier": tier,
            "seed": seed,
            "level": c.level,
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": len(self.sigs),
                "rule": c.rule,
                "samples": self.samples,
                "runs_per_hour": round(self.evaluations / max(sim_wall, 1e-9) * 3600),
                "seeds_per_hour": round(self.evaluations / max(sim_wall, 1e-9) * 3600),
                "simulated_time_s": self.sim_time,
                "simulated_steps": self.steps,
                "faults_fired": dict(self.faults),
                "conditions_reached": dict(self.probes),
                "distinct_states": len(self.states),
                "state_measure": c.state_measure,
                "real_components": c.real,
                "stubbed_components": c.stub,
                "known_findings_hit": dict(self.known_hits),
                "exhaustive": False,
                "wall_capped": bool(getattr(self.master, "capped", False)),
            },
            "assumptions": c.assumptions,
            "wall_s": round(wall, 2),
            "violations": len(self.violations),
        }
        path = os.environ.get("POPSIM_OUT") or os.path.join(VERIF, "evidence", f"{c.cid}.json")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        tmp = path + ".new"
        with open(tmp, "w") as f:
            json.dump(doc, f, indent=1)
        os.replace(tmp, path)


if __name__ == "__main__":
    sys.modules["engine"] = sys.modules["__main__"]
    try:
        rc = run_check(sys.argv[1], sys.argv[2:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
