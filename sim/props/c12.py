# -*- coding: utf-8 -*-
"""C12: a history of read-only calls, some cancelled in the middle or hit by disk faults, leaves what they look at as it was."""
from __future__ import absolute_import, division, print_function

import conc
import lib
import ops
import pure
from props import c11
from props.history import genfs, mkworld
from prng import mix
from sched import Interrupter

RUNS = {'quick': 5000, 'thorough': 160000}
JRUNS = {'quick': 60, 'thorough': 1500}
RULE = ('a run is two to ten read-only calls on one pattern, one style and one set of descriptors; some are cancelled at a line of gsapi, some '
        'hit disk faults; after each the objects are compared with what they were, and each result with the one on a fresh copy; '
        'non-trivial: at least one call was cancelled or failed by a fault and calls followed; distinct: scenario differs')
MEASURE = 'call x line at which it was cancelled, or fault that it met'
REAL = ['gsapi (all modules, from the working tree)', 'json', 'pickle', 'copy']
STUB = ['disk: in-memory file system', 'cancellation: an exception raised at a source line of gsapi']
ASSUMPTIONS = ['cancellation at source lines, not inside one line']

FAULTS = ['eio', 'enospc', 'interrupt', 'nomem', 'eacces', 'torn']


def gen(r, tier, i):
    s = {'seed': r.below(1 << 30), 'fs': genfs(r), 'pattern': pure.gpat(r), 'style': ops.gstyle(r), 'others': [pure.gpat(r, 6)], 'ops': []}
    if r.chance(0.06):
        s['style']['patterns'] = []   # learned nothing
    for k in range(r.rint(2, 10)):
        op = c11.gop(r, s, None)
        a = op.get('op', {}).get('a', {})
        if 'file' in a:
            a['file'] = '/sim/st.%d' % r.below(2)
        op['how'] = r.weighted([(4, 'plain'), (4, 'cancel'), (2 if 'folder' in a or 'file' in a else 0, 'fault')])
        if op['how'] == 'cancel':
            op['at'] = r.float()
            op['exc'] = r.choice(['KeyboardInterrupt', 'MemoryError'])
        elif op['how'] == 'fault':
            op['fault'] = [r.choice(['create', 'write', 'close', 'mkdir']), r.choice(FAULTS), r.choice([0, 0, 1, 2])]
        s['ops'].append(op)
    return s


def look(sh):
    p = sh['pattern']
    # which objects, not only which values: an event handed out earlier still belongs to the pattern
    ids = [id(e) for e in p.events] + [id(v) for k, v in sorted(p.viewpoints.items())]
    for k, v in sorted(p.viewpoints.items()):
        ids += [id(e) for e in v.events]
    return c11.snapall(sh), ids


def run(s, o):
    fresh = []
    counts = []
    with mkworld(s) as w:
        for op in s['ops']:
            sh = c11.mk(w, s)
            it = Interrupter()
            fresh.append(it(c11.one, w, sh, op))
            counts.append(it.n)
    with mkworld(s) as w:
        sh = c11.mk(w, s)
        before, ids = look(sh)
        proc = conc.process(w)
        bad = False
        for k, op in enumerate(s['ops']):
            name = c11.words({'ops': [op]})
            it = Interrupter(at=1 + int(op['at'] * max(1, counts[k])) if op['how'] == 'cancel' else None,
                             exc={'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError}[op.get('exc', 'MemoryError')])
            w.fs.begin(('op', k))
            if op['how'] == 'fault':
                f = op['fault']
                w.fs.faults[(('op', k), f[0], f[2])] = {'kind': f[1], 'arg': 50}
            n0 = sum(w.fs.fired.values())
            try:
                got = it(c11.one, w, sh, op)
            except KeyboardInterrupt:
                got = ['raises', 'KeyboardInterrupt']
            w.fs.end()
            hit = it.fired or sum(w.fs.fired.values()) > n0
            o.steps += it.n
            if it.fired:
                o.fired({'cancelled': 1})
                o.sigs.append(mix(name, it.where))
            elif hit:
                o.sigs.append(mix(name, op['fault'][0], op['fault'][1]))
            o.note(name, got if not hit else 'hit', hit)
            if bad:
                o.nontrivial = True
            bad = bad or hit
            after, ids2 = look(sh)
            d = lib.differ(before, after)
            how = ('cancelled at %s' % it.where) if it.fired else ('with fault %s' % op['fault']) if hit else 'returning'
            if d:
                o.bad('changed', '%s, %s, changed what it looks at: %s' % (name, how, '; '.join(d)))
                return
            if ids != ids2:
                o.bad('other objects', '%s, %s: the pattern holds other objects than before' % (name, how))
                return
            if not hit:
                d = lib.differ(fresh[k], got)
                if d:
                    o.bad('other result', '%s after %s gives another result than on a fresh object: %s' % (
                        name, ', '.join(c11.words({'ops': [x]}) for x in s['ops'][:k]) or 'nothing', '; '.join(d)))
                    return
            p2 = conc.process(w)
            d = [x for x in sorted(proc) if p2[x] != proc[x]]
            if d:
                o.bad('process state', '%s, %s, changed the %s' % (name, how, ', '.join(d)))
                return
        o.fired(w.fs.fired)
