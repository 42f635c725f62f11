# -*- coding: utf-8 -*-
"""What a property module is made of, and the minimiser."""
from __future__ import absolute_import, division, print_function

import copy
import importlib
import json
import os
import sys
import time

from lib import digest
from prng import Rng, mix
from simfs import PY3, SimCrash

ALL = ['C%02d' % k for k in range(1, 25)]


class Outcome(object):
    """What one simulated run showed."""

    def __init__(self):
        self.violations = []        # [class, words]
        self.log = []               # everything observable, for the determinism check
        self.steps = 0              # scheduler steps and I/O operations
        self.faults = {}
        self.sigs = []              # interleavings or fault points reached
        self.nontrivial = False
        self.probes = {}
        self.cover = set()

    def bad(self, cls, words):
        self.violations.append([cls, words if len(words) < 1500 else words[:1500] + '...'])

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def fired(self, d):
        for k, v in d.items():
            self.faults[k] = self.faults.get(k, 0) + v

    def note(self, *what):
        self.log.append(list(what))

    def data(self):
        return {'violations': self.violations, 'digest': digest(self.log), 'steps': self.steps, 'faults': self.faults,
                'sigs': self.sigs, 'nontrivial': self.nontrivial, 'probes': self.probes}


def prop(pid):
    return importlib.import_module('props.' + pid.lower())


def scenario_data(pid, seed, i, tier):
    return scenario(prop(pid), pid, seed, i, tier)


def scenario(p, pid, seed, i, tier):
    """Run i of a check: a pure function of these."""
    r = Rng(seed, pid, i)
    s = p.gen(r, tier, i)
    s = json.loads(json.dumps(s))       # what a replay file would hold
    return s


def execute(p, s):
    """One scenario; a harness error propagates."""
    o = Outcome()
    try:
        return _execute(p, s, o)
    except Exception as e:
        # raised inside gsapi where the property expects none: the code's; otherwise the harness's
        where = blame(sys.exc_info()[2])
        if where is None or type(e).__name__ == 'Stuck':
            if type(e).__name__ == 'Stuck':
                o.bad('hang', str(e))
                return o
            if isinstance(e, (TypeError, AttributeError, LookupError, ValueError, ZeroDivisionError)) and where is None:
                # a result that is not of the documented kind (on the tree as it is, no run gets here)
                tb = sys.exc_info()[2]
                while tb.tb_next is not None:
                    tb = tb.tb_next
                o.bad('unusable', 'what a call gives cannot be used as documented: %s: %s (in %s:%s)' % (
                    type(e).__name__, e, os.path.basename(tb.tb_frame.f_code.co_filename), tb.tb_frame.f_code.co_name))
                return o
            raise
        o.bad('raises', '%s: %s (in %s)' % (type(e).__name__, e, where))
        return o


def blame(tb):
    """The innermost frame of gsapi in a traceback."""
    import env
    where = None
    while tb is not None:
        f = tb.tb_frame.f_code
        if f.co_filename.startswith(env.PKG):
            where = '%s:%s' % (f.co_filename[len(env.PKG) + 1:], f.co_name)
        tb = tb.tb_next
    return where


def _execute(p, s, o):
    if s.get('budget'):
        import sched
        it = sched.Interrupter(limit=s['budget'])
        try:
            it(p.run, copy.deepcopy(s), o)
        except sched.Stuck as e:
            o.violations = [['hang', str(e)]]
    else:
        p.run(copy.deepcopy(s), o)
    return o


# ---- minimising ----------------------------------------------------------------------------
LISTS = ('events', 'faults', 'switches', 'ops', 'files', 'notes', 'threads', 'vps', 'tracks', 'others', 'jobs', 'patterns',
         'script', 'extra', 'steps', 'metas')


def _lists(x, path=()):
    if isinstance(x, dict):
        for k in sorted(x):
            if k in LISTS and isinstance(x[k], list) and x[k]:
                yield path + (k,)
            for y in _lists(x[k], path + (k,)):
                yield y
    elif isinstance(x, list):
        for i, v in enumerate(x):
            for y in _lists(v, path + (i,)):
                yield y


def _get(x, path):
    for k in path:
        x = x[k]
    return x


def minimise(p, s, cls, seconds=40):
    """Smaller scenarios in which the same class of violation stays."""
    deadline = time.time() + seconds

    def fails(c):
        if time.time() > deadline:
            return False
        try:
            o = execute(p, json.loads(json.dumps(c)))
        except Exception:
            return False
        return any(v[0] == cls for v in o.violations)

    tries = 0
    progress = cls != 'unusable'    # smaller ones might be unusable themselves
    while progress and time.time() < deadline:
        progress = False
        for path in list(_lists(s)):
            try:
                l = _get(s, path)
            except (KeyError, IndexError, TypeError):
                continue
            n = max(1, len(l) // 2)
            while n >= 1 and time.time() < deadline:
                i = 0
                while i < len(l):
                    c = copy.deepcopy(s)
                    cl = _get(c, path)
                    del cl[i:i + n]
                    tries += 1
                    if getattr(p, 'valid', lambda c: True)(c) and fails(c):
                        s = c
                        l = _get(s, path)
                        progress = True
                    else:
                        i += n
                n //= 2
        for c in getattr(p, 'simpler', lambda s: [])(s):
            tries += 1
            if fails(c):
                s = c
                progress = True
    return s, tries
