# -*- coding: utf-8 -*-
from __future__ import absolute_import, division, print_function

import lib
import ops
from props import faulty
from props.history import mkworld

RUNS = {'quick': 7000, 'thorough': 120000}
JRUNS = {'quick': 80, 'thorough': 2000}
RULE = ('a run is one save or load (JSON, MIDI, pickle, styles, collections, Dataset) tried 1 to 3 times under injected '
        'storage faults and then once without; non-trivial: at least one fault fired inside the call; distinct: scenario differs')
MEASURE = 'operation kind x fault kind x number of I/O operations done x how the call ended'
REAL = ['gsapi (all modules, from the working tree)', 'json', 'pickle', 'glob', 'io buffering and text layers']
STUB = ['disk: in-memory file system (sim/simfs.py); in Jython also the Python 2 file type', 'randomness: seeded per run']
ASSUMPTIONS = ['errors in listing a folder are left out: Python\'s glob itself swallows them']


def gen(r, tier, i):
    return faulty.gen(r, tier, i)


def run(s, o):
    job, trace, dryres, ncalls = faulty.dry(s)
    with mkworld(s) as w:
        q = faulty.prep(w, s['job'])
        load = ops.is_load(job)
        exp = None if load else ops.expected(q)
        src = None if load else ops.source(q)
        styl0 = ops.cstyle(q.style) if load and q.style is not None else None
        for k, a in enumerate(s['attempts'] + [{'faults': []}]):
            r = faulty.attempt(w, q, k, a, trace, ncalls)
            faulty.cover(o, job, r, trace)
            if r.fired:
                o.nontrivial = True
            o.note(k, type(r.exc).__name__, sorted(r.fired.items()))
            if r.exc is None:
                if not faulty.complete(w, q, exp, dryres, r, o, 'silent failure'):
                    return
                o.probe('returned although a fault fired' if r.hard else 'returned, no fault or a harmless one')
            else:
                o.probe('raised')
                if not r.hard:
                    o.bad('harmless fault', '%s raised %s: %s after %s (attempt %d)' %
                          (faulty.name(job), type(r.exc).__name__, r.exc, faulty.words(r), k))
                    return
                if load and styl0 is not None:
                    # as before, or all of the new one (when only closing failed)
                    d = lib.differ(styl0, ops.cstyle(q.style))
                    if d and lib.differ(dryres, ops.cstyle(q.style)):
                        o.bad('half loaded', 'a failed load (%s) changed the style: %s' % (faulty.words(r), '; '.join(d)))
                        return
            if not load:
                d = lib.differ(src, ops.source(q))
                if d:
                    o.bad('source changed', '%s (%s) changed what it saves: %s' % (faulty.name(job), faulty.words(r), '; '.join(d)))
                    return
            if load and q.style is not None:
                styl0 = ops.cstyle(q.style)
