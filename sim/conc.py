# -*- coding: utf-8 -*-
"""What the checks with several threads share: where threads are switched, and running them."""
from __future__ import absolute_import, division, print_function

import os
import sys

import lib
import sched


def gswitches(r, n):
    """[[fraction of all steps, steps after that, thread]]"""
    out = []
    style = r.weighted([(3, 'few'), (3, 'window'), (2, 'dense'), (1, 'many'), (1, 'late')])
    if style == 'few':
        for _ in range(r.rint(1, 5)):
            out.append([r.float(), 0, r.below(n)])
    elif style == 'many':
        for _ in range(r.rint(20, 120)):
            out.append([r.float(), 0, r.below(n)])
    else:
        gap = r.choice([1, 2, 3, 7, 20])
        at = {'window': r.float(), 'dense': 0.0, 'late': 0.4}[style]
        off = 0
        t = r.below(n)
        for _ in range(r.rint(10, 60) if style == 'window' else r.rint(60, 350)):
            off += r.rint(1, gap)
            t = (t + (1 if n == 2 else r.rint(1, n - 1))) % n
            out.append([at, off, t])
    out.sort(key=lambda x: x[0])
    return out


def resolve(switches, total):
    out = [[int(f * total) + off, t] for f, off, t in switches]
    out.sort(key=lambda x: x[0])
    return out


class Result(object):
    pass


def threads(fs, fns, switches, total):
    """Runs the functions as threads, switched as told; their results or what they raised."""
    s = sched.Sched(resolve(switches, total), limit=20 * total + 200000 if len(fns) > 1 else 3000000, fs=fs)
    for fn in fns:
        s.add(fn)
    s.run()
    r = Result()
    r.step, r.sig, r.nswitch, r.taken = s.step, s.sig, s.nswitch, s.taken
    r.out = []
    for t in s.tasks:
        if t.error is not None and not isinstance(t.error, (Exception, KeyboardInterrupt)):
            raise t.error
        r.out.append(['ok', t.result] if t.error is None else ['raises', type(t.error).__name__, str(t.error)])
    r.steps = [t.steps for t in s.tasks]
    return r


def process(w):
    """What belongs to the whole process and no call may change."""
    import random
    g = w.api.gsdefs
    return {'working directory': w.fs.cwd, 'environment': lib.digest(sorted((k, v) for k, v in os.environ.items())),
            'recursion limit': sys.getrecursionlimit(), 'standard output': sys.stdout is w.null,
            'gsdefs': lib.digest([[n, lib.ctag(getattr(g, n)) if isinstance(getattr(g, n), (dict, list, tuple)) else '']
                                  for n in sorted(vars(g)) if not n.startswith('_')]),
            'global random generator': lib.digest(repr(random.getstate())), 'settings of modules': settings()}


def settings():
    """What other code in the process may have set in the modules the library uses."""
    out = []
    for m in ('pickle', 'json', 'struct', 'math', 'copy', 'glob', 'os', 'codecs', 'random', 'io', 'fnmatch', 'collections'):
        m = sys.modules.get(m)
        for k, v in sorted(vars(m).items()) if m is not None else []:
            if not k.startswith('__') and (v is None or isinstance(v, (bool, int, float, str))):
                out.append((m.__name__, k, v))
    import logging
    out.append((logging.root.level, logging.root.manager.disable, logging.raiseExceptions))
    np = sys.modules.get('numpy')
    if np is not None and hasattr(np, 'geterr'):
        out.append((sorted(np.geterr().items()), sorted((k, repr(v)) for k, v in np.get_printoptions().items())))
    return lib.digest(repr(out))
