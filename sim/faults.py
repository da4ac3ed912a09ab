"""Faults inside a draw: exceptions out of user callbacks, random number
generation, numerical integration and console output."""
import contextlib
import io
import logging
import os
import sys

import numpy as np
import scipy.integrate
import scipy.stats

import popsynth
import world


class Planned(Exception):
    """An injected failure of a kind of its own."""


class AnyKind(FloatingPointError, ZeroDivisionError, OverflowError, IndexError, KeyError, UnicodeError, TypeError,
              AssertionError, NotImplementedError, RecursionError, BufferError, EOFError, ReferenceError, MemoryError, AttributeError):
    """Whatever kind somebody expects, this is one."""


EXCEPTIONS = {
    "Planned": Planned, "KeyboardInterrupt": KeyboardInterrupt, "ValueError": ValueError, "AttributeError": AttributeError,
    "TypeError": TypeError, "MemoryError": MemoryError, "FloatingPointError": FloatingPointError, "OSError": OSError,
    "SystemExit": SystemExit, "AssertionError": AssertionError, "KeyError": KeyError, "RuntimeError": RuntimeError,
    "NotImplementedError": NotImplementedError, "AnyKind": AnyKind,
}

RNG = ("uniform", "normal", "poisson", "random", "random_sample", "rand", "randn", "choice", "binomial", "pareto", "lognormal",
       "gamma", "exponential", "power", "standard_normal", "randint")

HOOK_POINTS = ("dNdV", "dV", "time", "transform", "sky", "phi", "draw_luminosity", "true", "obs", "compute_luminosity", "select")
FAMILIES = ("hook", "rng", "rvs", "quad", "console", "progress", "integrand")


def caller():
    """The function of popsynth (or of a simulated part) that is at work."""
    f = sys._getframe(2)
    while f is not None:
        name = f.f_code.co_filename
        if name == world.__file__ or ("popsynth" in name and "site-packages" not in name):
            return os.path.basename(name)[:-3] + "." + f.f_code.co_name
        f = f.f_back
    return "elsewhere"


def writer():
    """Who writes to the console: a progress bar, or something else (logging, a finalizer)."""
    f = sys._getframe(2)
    out = "console"
    while f is not None:
        if f.f_code.co_name == "__del__" or f.f_globals.get("__name__", "").startswith("logging"):
            return "console"
        if f.f_globals.get("__name__", "").startswith("tqdm"):
            out = "progress"
        f = f.f_back
    return out


class Stream(io.TextIOBase):
    """A console whose writes pass through the injector."""

    def __init__(self, injector):
        self.injector = injector
        self.text = 0

    def writable(self):
        return True

    def isatty(self):
        return False

    def write(self, s):
        self.injector.hit(writer())
        self.text += len(s)
        return len(s)

    def flush(self):
        pass


class Injector(object):
    """Counts the passes of every fault site; raises at one of them."""

    def __init__(self, site=None, k=None, exc=None):
        self.site, self.k, self.exc = site, k, exc
        self.counts = {}
        self.raised = None
        self.trace = []

    def hit(self, site):
        n = self.counts.get(site, 0)
        self.counts[site] = n + 1
        if site == self.site and n == self.k:
            self.raised = EXCEPTIONS[self.exc]("injected")
            raise self.raised

    def _hook(self, point, obj):
        self.hit("hook:" + point)

    @contextlib.contextmanager
    def armed(self, console=True):
        saved = []

        def patch(owner, name, new):
            saved.append((owner, name, owner.__dict__[name] if isinstance(owner, type) else getattr(owner, name)))
            setattr(owner, name, new)

        def wrapped(f, site):
            def g(*a, **kw):
                self.hit(site + ":" + caller())
                return f(*a, **kw)
            return g

        for name in RNG:
            patch(np.random, name, wrapped(getattr(np.random, name), "rng"))
        base = scipy.stats.rv_continuous.__mro__[1]
        if "rvs" in base.__dict__:
            patch(base, "rvs", wrapped(base.rvs, "rvs"))
        real_quad = scipy.integrate.quad

        def quad(f, *a, **kw):
            where = caller()
            self.hit("quad:" + where)

            def g(*x):
                self.hit("integrand:" + where)
                return f(*x)
            return real_quad(g, *a, **kw)

        patch(scipy.integrate, "quad", quad)
        if console:
            patch(sys, "stderr", Stream(self))
            patch(sys, "stdout", Stream(self))
            seen = []
            for lg in list(logging.root.manager.loggerDict.values()) + [logging.root]:
                for h in getattr(lg, "handlers", []):
                    if type(h) is logging.StreamHandler and not any(h is x for x in seen):
                        seen.append(h)
                        patch(h, "stream", Stream(self))
        world.HOOKS.append(self._hook)
        try:
            yield self
        finally:
            world.HOOKS.remove(self._hook)
            for owner, name, old in reversed(saved):
                setattr(owner, name, old)
