# -*- coding: utf-8 -*-
"""
One simulated process: gsapi imported afresh from the working tree, on the
simulated file system, with the run's random numbers.

The source of every module is compiled once per worker and executed anew for
every simulated process, so no module state outlives one.
"""
from __future__ import absolute_import, division, print_function

import gc
import logging
import os
import random
import sys
import threading
import types

try:
    import thread
except ImportError:
    pass

from prng import Rng, mix
from simfs import PATCH, PY3, SimCrash, SimFS

REPO = os.environ.get('GSAPI_REPO', '/repo')
PKG = os.path.join(REPO, 'gsapi')
JYTHON = sys.platform.startswith('java')

try:
    import numpy
except ImportError:
    numpy = None


# ---- code, compiled once ---------------------------------------------------------
class Code(object):
    def __init__(self):
        self.table = None

    def load(self):
        self.table = {}
        for base, dirs, names in os.walk(PKG):
            for n in sorted(names):
                if not n.endswith('.py'):
                    continue
                path = os.path.join(base, n)
                rel = os.path.relpath(path, REPO)[:-3].split(os.sep)
                pkg = rel[-1] == '__init__'
                if pkg:
                    rel = rel[:-1]
                with open(path, 'rb') as f:
                    src = f.read()
                try:
                    code = compile(src, path, 'exec', 0, 1)
                except SyntaxError as e:
                    code = e        # only an error for who imports it
                self.table['.'.join(rel)] = (code, path, pkg)


CODE = Code()


class Finder(object):
    """Serves gsapi modules from CODE."""

    def find_spec(self, name, path=None, target=None):
        if CODE.table is None or name not in CODE.table:
            return None
        from importlib.machinery import ModuleSpec
        code, p, pkg = CODE.table[name]
        s = ModuleSpec(name, self, origin=p, is_package=pkg)
        s.has_location = True
        if pkg:
            s.submodule_search_locations = [os.path.dirname(p)]
        return s

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        self._exec(mod.__name__, mod)

    # Python 2
    def find_module(self, name, path=None):
        return self if CODE.table is not None and name in CODE.table else None

    def load_module(self, name):
        if name in sys.modules:
            return sys.modules[name]
        code, p, pkg = CODE.table[name]
        mod = types.ModuleType(name)
        mod.__file__ = p
        mod.__loader__ = self
        if pkg:
            mod.__path__ = [os.path.dirname(p)]
            mod.__package__ = name
        else:
            mod.__package__ = name.rpartition('.')[0]
        sys.modules[name] = mod
        try:
            self._exec(name, mod)
        except BaseException:
            sys.modules.pop(name, None)
            raise
        return mod

    def _exec(self, name, mod):
        if name == 'gsapi.bassmine' and numpy is None:
            return              # no numpy here: an empty module
        code = CODE.table[name][0]
        if isinstance(code, SyntaxError):
            raise code
        exec(code, mod.__dict__)


# ---- random numbers ----------------------------------------------------------------
class Entropy(object):
    """What unseeded generators get in this run; a script may come first."""

    def __init__(self):
        self.rng = Rng(0)
        self.script = []        # values random() returns before anything else
        self.everything = False     # also seeded generators follow the script
        self.draws = 0
        self.keep = []

    def reset(self, seed, script=(), everything=False):
        self.rng = Rng('entropy', seed)
        self.script = list(script)
        self.everything = everything
        self.draws = 0
        self.keep = []


ENTROPY = Entropy()
_base_seed = random.Random.seed
_base_random = random.Random.random
_RB = getattr(random.Random, '_randbelow', None)
_RBW = getattr(random.Random, '_randbelow_without_getrandbits', None)


def _seed(self, a=None, *rest, **kw):
    """Never seeded by the operating system."""
    if a is None:
        a = ENTROPY.rng.next()
        _scripted.add(id(self))
        ENTROPY.keep.append(self)
    elif id(self) in _scripted and not ENTROPY.everything:
        _scripted.discard(id(self))
    return _base_seed(self, a, *rest, **kw)


_scripted = set()


def _random(self):
    if ENTROPY.everything or id(self) in _scripted:
        ENTROPY.draws += 1
        if ENTROPY.script:
            return ENTROPY.script.pop(0)
    return _base_random(self)


_FUNCS = ('seed', 'random', 'uniform', 'triangular', 'randint', 'choice', 'randrange', 'sample', 'shuffle',
          'choices', 'normalvariate', 'lognormvariate', 'expovariate', 'vonmisesvariate', 'gammavariate', 'gauss',
          'betavariate', 'paretovariate', 'weibullvariate', 'getstate', 'setstate', 'getrandbits', 'randbytes')


def randomness(seed, script=(), everything=False):
    """Start of a simulated process: its entropy; a script is what random() gives first."""
    ENTROPY.reset(seed, script, everything)
    _scripted.clear()
    R = random.Random
    R.seed = _seed
    if script or everything:
        R.random = _random
        if _RBW is not None:
            R._randbelow = _RBW     # every draw goes through random()
    else:
        R.random = _base_random
        if _RB is not None:
            R._randbelow = _RB
    inst = R()
    random._inst = inst
    for n in _FUNCS:
        if hasattr(random, n):
            setattr(random, n, getattr(inst, n))
    if numpy is not None:
        numpy.random.seed(ENTROPY.rng.next() & 0xffffffff)


_real_urandom = os.urandom


def _urandom(n):
    if PATCH.fs is None:
        return _real_urandom(n)
    return bytes(bytearray(ENTROPY.rng.below(256) for _ in range(n)))


# ---- locks -----------------------------------------------------------------------------
class Locks(object):
    sched = None


LOCKS = Locks()


class SimLock(object):
    """A lock the scheduler knows; also re-entrant."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def _me(self):
        return LOCKS.sched.current if LOCKS.sched is not None else 'main'

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if self.reentrant and self.owner is not None and self.owner == me:
            self.count += 1
            return True
        if LOCKS.sched is not None:
            LOCKS.sched.point('lock')
            while self.count:
                if not blocking or (timeout is not None and timeout >= 0):
                    return False
                LOCKS.sched.block(self)
        elif self.count:
            if not blocking:
                return False
            raise RuntimeError("simulated deadlock: lock taken and nobody else runs")
        self.owner = me
        self.count = 1
        return True

    def release(self):
        if not self.count:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if not self.count:
            self.owner = None
            if LOCKS.sched is not None:
                LOCKS.sched.unblock(self)
                LOCKS.sched.point('unlock')

    def locked(self):
        return bool(self.count)

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    # for Condition
    def _is_owned(self):
        return bool(self.count) and self.owner == self._me()


def _from_gsapi(depth):
    try:
        return sys._getframe(depth).f_globals.get('__name__', '').startswith('gsapi')
    except ValueError:
        return False


_real_lock, _real_rlock = threading.Lock, threading.RLock


def _lock(*a, **k):
    if _from_gsapi(2):
        return SimLock(False)
    return _real_lock(*a, **k)


def _rlock(*a, **k):
    if _from_gsapi(2):
        return SimLock(True)
    return _real_rlock(*a, **k)


_ident = threading.get_ident if PY3 else thread.get_ident


# ---- the process ---------------------------------------------------------------------
class Null(object):
    encoding = 'utf-8'
    softspace = 0

    def __init__(self):
        self.kept = {}          # thread -> what it printed, if it asked to keep that

    def write(self, s):
        l = self.kept.get(_ident())
        if l is not None:
            l.append(s)
        return len(s)

    def printed(self, fn):
        """Runs fn; the lines that this thread printed meanwhile."""
        self.kept[_ident()] = l = []
        try:
            fn()
        finally:
            del self.kept[_ident()]
        return ''.join(l).split('\n')

    def writelines(self, l):
        pass

    def flush(self):
        pass

    def isatty(self):
        return False


_installed = []


def install():
    if _installed:
        return
    _installed.append(1)
    CODE.load()
    # what gsapi imports lazily, from the real disk and before any tracing
    import json, json.encoder, json.decoder, json.scanner, pickle, glob, fnmatch, copy, re, struct, math, itertools
    import collections, pprint, codecs, encodings.latin_1, encodings.utf_8, encodings.ascii, tempfile, shutil, hashlib
    import traceback, linecache, warnings, contextlib, io, stat, bisect, heapq, string, functools, operator, uuid
    if PY3:
        import pathlib, collections.abc, queue, concurrent.futures, concurrent.futures.thread, weakref, enum, types, inspect, ast
        import dataclasses, itertools, typing, numbers, decimal, fractions, zlib, base64
    else:
        import cPickle
    sys.meta_path.insert(0, Finder())
    PATCH.install()
    os.urandom = _urandom
    threading.Lock = _lock
    threading.RLock = _rlock
    logging.disable(logging.CRITICAL)
    logging.raiseExceptions = False
    sys.dont_write_bytecode = True


def forget():
    """The modules and loggers of the last simulated process."""
    for n in [n for n in sys.modules if n == 'gsapi' or n.startswith('gsapi.')]:
        del sys.modules[n]
    d = logging.Logger.manager.loggerDict
    for n in [n for n in d if n == 'gsapi' or n.startswith('gsapi.')]:
        del d[n]
    logging.setLoggerClass(logging.Logger)


class API(object):
    """The modules of one simulated process."""


def boot(entropy=0, script=(), everything=False):
    """Start a simulated process; returns its gsapi modules."""
    forget()
    randomness(entropy, script, everything)
    import gsapi
    a = API()
    for n in ('gsdefs', 'gspattern', 'gsio', 'gsdataset', 'gsstyles', 'gsdescriptors', 'gstransformers', 'midiio',
              'gsutil', 'gsextractors', 'bassmine'):
        setattr(a, n, sys.modules['gsapi.' + n])
    a.Event = a.gspattern.Event
    a.Pattern = a.gspattern.Pattern
    return a


class World(object):
    """with World(...) as w: the simulated machine of one run."""

    def __init__(self, seed=0, **fsargs):
        self.seed = seed
        self.fs = SimFS(**fsargs)
        self.boots = 0
        self.api = None

    def __enter__(self):
        install()
        self._out = sys.stdout, sys.stderr
        self.null = Null()
        sys.stdout = sys.stderr = self.null
        self.setrec = sys.getrecursionlimit()
        PATCH.fs = self.fs
        try:
            self.boot()
        except BaseException:
            self.__exit__()
            raise
        return self

    def boot(self, script=(), everything=False):
        """A new process on the same disk."""
        self.fs.restart()
        self.boots += 1
        self.api = boot(mix(self.seed, self.boots), script, everything)
        return self.api

    def __exit__(self, *a):
        fs = self.fs
        fs.dead = True
        PATCH.fs = None
        sys.stdout, sys.stderr = self._out
        # the objects of the run may flush and close now, into nowhere
        for h in fs.handles:
            h.closed = True
        PATCH.fs = fs
        for o in fs.keep:
            try:
                o.close()
            except BaseException:
                pass
        del fs.keep[:]
        PATCH.fs = None
        forget()
        return False


def kind(exc):
    return type(exc).__name__
