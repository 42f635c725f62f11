# -*- coding: utf-8 -*-
from __future__ import absolute_import, division, print_function

import ops
from props import faulty
from props.history import mkworld
from simfs import CWD

RUNS = {'quick': 8000, 'thorough': 120000}
JRUNS = {'quick': 80, 'thorough': 2000}
RULE = ('a run is one save or load (JSON, MIDI, pickle, styles, collections, Dataset) on a disk with other files, tried 1 to 3 '
        'times under injected storage faults or cancelled, and then once without; non-trivial: the call did I/O; distinct: scenario differs')
MEASURE = 'operation kind x fault kind x number of I/O operations done x how the call ended'
REAL = ['gsapi (all modules, from the working tree)', 'json', 'pickle', 'glob', 'io buffering and text layers']
STUB = ['disk: in-memory file system (sim/simfs.py); writes outside it are refused and recorded', 'randomness: seeded per run']
ASSUMPTIONS = ['temporary files in the target\'s folder are allowed while the call runs, not after it returned or raised']


def gen(r, tier, i):
    s = faulty.gen(r, tier, i, cancel=0.1)
    # neighbours with names close to the target's
    job = s['job']
    ex = [{'name': '/sim/cwd/notes.txt', 'size': 5}, {'name': '/sim/out/keep.bin', 'size': 40}]
    t = None
    if not ops.is_load(job):
        t = ops.target(job)
    elif job['op'] == 'load':
        t = ops.target(job['of'])
    if t is not None:
        if not t.startswith('/'):
            t = CWD + '/' + t
        for suffix in r.sample(['.bak', '~', '.tmp', '.old', '2', '.mid', '.json', '.pickle'], 3):
            ex.append({'name': t + suffix, 'size': r.rint(0, 30)})
        ex.append({'name': t[:t.rfind('/') + 1] + 'neighbour', 'size': 9})
    if r.chance(0.3):
        ex = [e for e in ex if not e['name'].startswith('/sim/out')]
    s['extra'] = ex
    return s


def run(s, o):
    job, trace, dryres, ncalls = faulty.dry(s)
    with mkworld(s) as w:
        for e in s.get('extra', []):
            w.fs.put(w.fs.norm(e['name']), b'n' * e['size'])
        # a folder with extra files exists already, others are made by the call
        q = faulty.prep(w, s['job'])
        load = ops.is_load(job)
        for k, a in enumerate(s['attempts'] + [{'faults': []}]):
            r = faulty.attempt(w, q, k, a, trace, ncalls)
            faulty.cover(o, job, r, trace)
            o.nontrivial = o.nontrivial or r.nops > 0
            o.note(k, type(r.exc).__name__, sorted(r.after))
            mine = set() if load else set([q.rel])
            changed = [p for p in sorted(set(r.before) | set(r.after)) if r.before.get(p) != r.after.get(p) and p not in mine]
            if changed:
                o.bad('other files changed', '%s %s changed %s' % (
                    faulty.name(job), 'returned after %s and' % faulty.words(r) if r.exc is None else
                    'raised %s after %s and' % (type(r.exc).__name__, faulty.words(r)), changed))
                return
            allowed = set()
            if not load:
                d = q.rel
                while d != '/':
                    d = d.rsplit('/', 1)[0] or '/'
                    allowed.add(d)
            dirs = sorted((r.dirs ^ r.dirs_after) - allowed)
            if dirs:
                o.bad('folders changed', '%s made or removed the folders %s' % (faulty.name(job), dirs))
                return
            if not load and q.rel in r.before and q.rel not in r.after:
                o.bad('target removed', '%s removed %s, which was there before (%s)' % (faulty.name(job), q.rel, faulty.words(r)))
                return
            if r.outside:
                o.bad('outside', '%s tried to change %s' % (faulty.name(job), r.outside))
                return
