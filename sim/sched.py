"""Deterministic thread scheduler.

Tasks are real threads of which exactly one runs at a time; at every traced
line of popsynth (and of the simulated parts) the running one may be
preempted.  Locks popsynth creates are simulated.  One plan is one schedule.
"""
import os
import random
import sys
import threading
import time
import _thread

REPO = os.path.realpath(os.environ.get("POPSIM_REPO", "/repo"))
POP = os.path.join(REPO, "popsynth") + os.sep
HERE = os.path.dirname(os.path.realpath(__file__)) + os.sep
WORLD = os.path.join(HERE, "world.py")

_real_allocate = _thread.allocate_lock
_real_rlock = threading.RLock
_threading_file = threading.__file__

#: frames during which a thread may hold a lock the scheduler does not know
HELD = ("/logging/__init__.py", "/logging/handlers.py", "/tqdm/", "importlib", "/h5py/", "/threading.py", "/warnings.py",
        "/contextlib_no")

current = None      # the active scheduler


class Deadlock(Exception):
    pass


class StepLimit(Exception):
    pass


class Abort(BaseException):
    """Ends a task when the run is over."""


class SimLock(object):
    """Lock or reentrant lock known to the scheduler."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def _me(self):
        return _thread.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        s = current
        if s is not None:
            s.probe("lock_acquire")
        while True:
            if self.owner is None or (self.reentrant and self.owner == me):
                self.owner = me
                self.count += 1
                return True
            if not blocking:
                return False
            if s is None or s.free or s.task_here() is None:
                # outside a simulation: wait in real time
                end = None if timeout is None or timeout < 0 else time.monotonic() + timeout
                while self.owner is not None and not (self.reentrant and self.owner == me):
                    if end is not None and time.monotonic() > end:
                        return False
                    time.sleep(0.0005)
                continue
            s.probe("lock_contended")
            if not s.block(self, timeout is not None and timeout >= 0):
                return False

    def release(self):
        if self.reentrant and self.owner != self._me():
            raise RuntimeError("cannot release un-acquired lock")
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None
            if current is not None:
                current.unblock(self)

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    # what Condition needs of a reentrant lock
    def _is_owned(self):
        return self.owner == self._me()

    def _release_save(self):
        n = self.count
        self.count = 1
        self.release()
        return n

    def _acquire_restore(self, n):
        self.acquire()
        self.count = n

    def __copy__(self):
        raise TypeError("cannot copy a lock")

    def __reduce__(self):
        raise TypeError("cannot pickle a lock")


def _from_popsynth():
    f = sys._getframe(2)
    while f is not None and f.f_code.co_filename == _threading_file:
        f = f.f_back
    return f is not None and os.path.realpath(f.f_code.co_filename).startswith(POP)


def _lock_factory():
    return SimLock(False) if _from_popsynth() else _real_allocate()


def _rlock_factory(*a):
    return SimLock(True) if _from_popsynth() else _real_rlock()


def install():
    """Before popsynth is imported: its locks become simulated ones."""
    threading.Lock = _lock_factory
    threading._allocate_lock = _lock_factory
    threading.RLock = _rlock_factory


class _Task(object):
    def __init__(self, index, fn):
        self.index = index
        self.fn = fn
        self.baton = _real_allocate()
        self.baton.acquire()
        self.state = "ready"       # ready, blocked, done
        self.lock = None
        self.timed = False
        self.result = None
        self.error = None
        self.ident = None


class Scheduler(object):
    def __init__(self, fns, plan, max_steps=3000000, stall=25.0):
        self.tasks = [_Task(i, f) for i, f in enumerate(fns)]
        self.plan = plan
        self.rng = random.Random(plan.get("seed", 0))
        self.p = plan.get("p", 0.02)
        self.explicit = None
        if "switches" in plan:
            self.explicit = {int(s): t for s, t in plan["switches"]}
        self.priorities = None
        if plan.get("mode") == "pct" and self.explicit is None:
            self.priorities = [self.rng.random() for _ in self.tasks]
            span = plan.get("span", 2000)
            self.changes = {self.rng.randrange(1, span) for _ in range(plan.get("depth", 4))}
        self.steps = 0
        self.switches = []
        self.running = None
        self.done = threading.Event()
        self.failure = None
        self.free = False
        self.max_steps = max_steps
        self.stall = stall
        self.by_ident = {}
        self.probes = {}
        self.preempted = 0

    def probe(self, name):
        self.probes[name] = self.probes.get(name, 0) + 1

    # ---- tasks

    def task_here(self):
        return self.by_ident.get(_thread.get_ident())

    def _body(self, task):
        task.ident = _thread.get_ident()
        self.by_ident[task.ident] = task
        task.baton.acquire()
        try:
            if self.failure is not None:
                raise Abort()
            sys.settrace(self._trace)
            try:
                task.result = task.fn()
            finally:
                sys.settrace(None)
        except Abort:
            pass
        except BaseException as e:
            task.error = e
        task.state = "done"
        self._next(task, forced=True)

    def _trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        if f.startswith(POP) or f == WORLD:
            return self._local
        r = _real(f)
        if r.startswith(POP) or r == WORLD:
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == "line":
            self._point(frame)
        return self._local

    def _point(self, frame):
        if self.free:
            return
        if self.failure is not None:
            raise Abort()
        self.steps += 1
        if self.steps > self.max_steps:
            self._fail(StepLimit(f"{self.steps} steps"))
            raise Abort()
        me = self.tasks[self.running]
        target = self._choose(me)
        if target is None or target is me:
            return
        f = frame.f_back
        while f is not None:
            name = f.f_code.co_filename
            for h in HELD:
                if h in name and not name.startswith(HERE):
                    # the thread's own bootstrap frames are in threading.py
                    if h == "/threading.py" and f.f_code.co_name in ("_bootstrap", "_bootstrap_inner", "run"):
                        continue
                    self.probe("preemption_deferred")
                    return
            f = f.f_back
        if _holds_hdf5():
            self.probe("preemption_deferred")
            return
        self.preempted += 1
        self.switches.append([self.steps, target.index])
        self._hand(me, target)

    def _ready(self):
        return [t for t in self.tasks if t.state == "ready"]

    def _choose(self, me):
        if self.explicit is not None:
            t = self.explicit.get(self.steps)
            if t is None or t >= len(self.tasks):
                return None
            t = self.tasks[t]
            return t if t.state == "ready" else None
        if self.priorities is not None:
            if self.steps in self.changes:
                self.priorities[me.index] = -self.steps
            ready = self._ready()
            return max(ready, key=lambda t: self.priorities[t.index])
        if self.rng.random() >= self.p:
            return None
        ready = self._ready()
        return ready[self.rng.randrange(len(ready))]

    def _hand(self, me, target):
        self.running = target.index
        target.baton.release()
        me.baton.acquire()
        if self.failure is not None:
            raise Abort()

    def _next(self, me, forced):
        """me cannot go on: pick another."""
        if self.free:
            if all(t.state == "done" for t in self.tasks):
                self.done.set()
            return
        ready = self._ready()
        if not ready:
            if all(t.state == "done" for t in self.tasks):
                self.done.set()
                return
            timed = [t for t in self.tasks if t.state == "blocked" and t.timed]
            if timed:
                t = timed[0]
                t.state = "ready"
                t.lock = "timeout"
                ready = [t]
            else:
                self._fail(Deadlock("; ".join(f"task {t.index} {t.state}" for t in self.tasks)))
                return
        if self.explicit is not None:
            i = self.explicit.get(self.steps)
            pick = next((t for t in ready if t.index == i), ready[0])
        elif self.priorities is not None:
            pick = max(ready, key=lambda t: self.priorities[t.index])
        else:
            pick = ready[self.rng.randrange(len(ready))]
        self.switches.append([self.steps, pick.index])
        self.running = pick.index
        pick.baton.release()

    def block(self, lock, timed):
        """The running task waits for a lock; False if it timed out."""
        me = self.task_here()
        self.steps += 1
        me.state = "blocked"
        me.lock = lock
        me.timed = timed
        self._next(me, forced=True)
        if self.failure is not None:
            raise Abort()
        me.baton.acquire()
        if self.failure is not None:
            raise Abort()
        out = me.lock != "timeout"
        me.lock = None
        me.timed = False
        return out

    def unblock(self, lock):
        for t in self.tasks:
            if t.state == "blocked" and t.lock is lock:
                t.state = "ready"

    def _fail(self, what):
        if self.failure is None:
            self.failure = what
            for t in self.tasks:
                try:
                    t.baton.release()
                except RuntimeError:
                    pass
            self.done.set()

    # ---- run

    def run(self):
        global current
        current = self
        threads = [threading.Thread(target=self._body, args=(t,), daemon=True) for t in self.tasks]
        for t in threads:
            t.start()
        while any(t.ident is None for t in self.tasks):
            time.sleep(0.0002)
        if self.explicit is not None and 0 in self.explicit:
            first = self.tasks[min(self.explicit[0], len(self.tasks) - 1)]
        elif self.priorities is not None:
            first = max(self.tasks, key=lambda t: self.priorities[t.index])
        else:
            first = self.tasks[self.rng.randrange(len(self.tasks))] if self.explicit is None else self.tasks[0]
        self.switches.append([0, first.index])
        self.running = first.index
        first.baton.release()
        seen, last = -1, time.monotonic()
        while not self.done.wait(0.5):
            if self.steps != seen:
                seen, last = self.steps, time.monotonic()
            elif time.monotonic() - last > self.stall and not self.free:
                # a lock the simulation does not know: let the threads go
                self.free = True
                if os.environ.get("POPSIM_LOUD"):
                    import faulthandler
                    faulthandler.dump_traceback(all_threads=True)
                self.probe("free_run")
                last = time.monotonic()
                for t in self.tasks:
                    if t.state != "done":
                        try:
                            t.baton.release()
                        except RuntimeError:
                            pass
                        t.state = "ready" if t.state == "blocked" else t.state
            elif self.free and time.monotonic() - last > 60:
                self.failure = Deadlock("threads do not finish")
                break
        current = None
        if self.failure is not None:
            raise self.failure
        for t in threads:
            t.join(10)
        return self.tasks


def _holds_hdf5():
    """Iterating over a group keeps h5py's lock between the items."""
    m = sys.modules.get("h5py._objects")
    return m is not None and m.phil._is_owned()


_cache = {}


def _real(f):
    r = _cache.get(f)
    if r is None:
        r = _cache[f] = os.path.realpath(f)
    return r
