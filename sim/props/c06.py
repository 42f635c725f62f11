# -*- coding: utf-8 -*-
from __future__ import absolute_import, division, print_function

from props import faulty
from props.history import mkworld

RUNS = {'quick': 6500, 'thorough': 120000}
JRUNS = {'quick': 80, 'thorough': 2000}
RULE = ('a run is one save or load (JSON, MIDI, pickle, styles, collections, Dataset) tried 1 to 3 times under injected '
        'storage faults or cancelled at a call inside gsapi, and then once without; non-trivial: the call opened a file; '
        'distinct: scenario differs')
MEASURE = 'operation kind x fault kind x number of I/O operations done x how the call ended'
REAL = ['gsapi (all modules, from the working tree)', 'json', 'pickle', 'glob', 'io buffering and text layers']
STUB = ['disk: in-memory file system (sim/simfs.py) that keeps every file object alive, so none is closed by the collector',
        'randomness: seeded per run']
ASSUMPTIONS = ['cancellation (KeyboardInterrupt) arrives at an I/O operation or at a call of a function of gsapi']


def gen(r, tier, i):
    return faulty.gen(r, tier, i, cancel=0.3)


def run(s, o):
    job, trace, dryres, ncalls = faulty.dry(s)
    with mkworld(s) as w:
        q = faulty.prep(w, s['job'])
        setup = [h.path for h in w.fs.leaked('setup')]
        if setup:
            o.bad('left open', '%s returned with %s open' % (job['of']['op'], setup))
        for k, a in enumerate(s['attempts'] + [{'faults': []}]):
            n0 = len(w.fs.handles)
            r = faulty.attempt(w, q, k, a, trace, ncalls)
            faulty.cover(o, job, r, trace)
            if len(w.fs.handles) > n0:
                o.nontrivial = True
                o.probe('file opened')
            o.note(k, type(r.exc).__name__, len(r.leaks))
            if r.leaks:
                o.bad('left open', '%s %s after %s with %s open' % (
                    faulty.name(job), 'returned' if r.exc is None else 'raised %s' % type(r.exc).__name__,
                    faulty.words(r), sorted(h.path for h in r.leaks)))
                return
