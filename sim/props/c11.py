# -*- coding: utf-8 -*-
"""C11: several threads look at the same pattern, style or descriptor at the same time."""
from __future__ import absolute_import, division, print_function

import conc
import lib
import ops
import pure
from props.history import genfs, mkworld
from prng import mix

RUNS = {'quick': 3000, 'thorough': 80000}
JRUNS = {'quick': 20, 'thorough': 800}
RULE = ('a run is two or three threads that each do one to four read-only operations on one pattern, one Markov style and one set of '
        'descriptors that they share; every result is compared with the one a single thread gets; '
        'non-trivial: at least one thread was switched inside gsapi; distinct: scenario differs')
MEASURE = 'distinct sequences of (thread, source line, next thread) at the switches'
REAL = ['gsapi (all modules, from the working tree)', 'json', 'pickle', 'copy', 'real threads, one at a time']
STUB = ['thread scheduler: preempts at source lines of gsapi and at disk operations (sim/sched.py)', 'disk: in-memory file system']
ASSUMPTIONS = ['preemption at source lines, not inside one line', 'the shared object is not edited meanwhile']

DESC = ['density', 'densitytags', 'ntags', 'sync', 'chord', 'chordmm', 'space']


def descs(api):
    g = api.gsdescriptors
    return {'density': g.Density(), 'densitytags': g.Density(ignoredTags=['Snare'], includedTags=['Kick', 'C4']), 'ntags': g.NumberOfTags(),
            'sync': g.Syncopation(), 'chord': g.Chord(), 'chordmm': g.Chord(forceMajMin=True), 'space': api.gsextractors.DensityDrumSpace()}


def gop(r, s, prev):
    k = r.weighted([(6, 'pattern'), (3, 'desc'), (3, 'style')])
    if prev is not None and r.chance(0.6):
        k = prev['on']
    if k == 'pattern':
        op = pure.gop(r, s['pattern'], pure.READ)
        if prev is not None and prev['on'] == k and r.chance(0.5):
            op = pure.gop(r, s['pattern'], [prev['op']['k']])
        return {'on': k, 'op': op}
    if k == 'desc':
        return {'on': k, 'desc': prev['desc'] if prev is not None and prev['on'] == k and r.chance(0.7) else r.choice(DESC),
                'n': r.below(3)}
    return {'on': k, 'op': pure.gstyleop(r, s['style']['steps'])}


def gen(r, tier, i):
    s = {'seed': r.below(1 << 30), 'fs': genfs(r), 'pattern': pure.gpat(r), 'style': ops.gstyle(r), 'others': [pure.gpat(r, 6), pure.gpat(r, 6)],
         'threads': []}
    n = r.weighted([(4, 2), (1, 3)])
    prev = []
    for tid in range(n):
        l = []
        for k in range(r.weighted([(5, 1), (3, 2), (2, 4)])):
            op = gop(r, s, prev[k] if k < len(prev) else None)
            a = op.get('op', {}).get('a', {})
            if 'folder' in a:
                a['folder'] = '/sim/ro/t%d' % tid if r.chance(0.5) else '/sim/ro/new'
                # each to a file of its own
                op['folder'] = True
                a['folder'] += '/%d.%d' % (tid, k)
            if 'file' in a:
                a['file'] = '/sim/st.t%d.%d' % (tid, k)
            l.append(op)
        if not tid:
            prev = l
        s['threads'].append({'ops': l})
    s['switches'] = conc.gswitches(r, n)
    return s


def one(w, shared, op):
    try:
        if op['on'] == 'desc':
            d = shared['descs'][op['desc']]
            p = ([shared['pattern']] + shared['others'])[op['n'] % (1 + len(shared['others']))]
            return ['ok', pure.canon(d.getFeatureSpace(p) if op['desc'] == 'space' else d.getDescriptorForPattern(p))]
        return pure.apply(w.api, shared[op['on']], op['op'])
    except Exception as e:
        if type(e).__name__ in ('Stuck', 'Hang'):
            raise
        return ['raises', type(e).__name__]


def mk(w, s):
    return {'pattern': lib.build(w.api, s['pattern']), 'style': ops.mkstyle(w.api, s['style']), 'descs': descs(w.api),
            'others': [lib.build(w.api, p) for p in s['others']]}


def snapall(shared):
    return [lib.snap(shared['pattern'], True), ops.cstyle(shared['style'])] + [lib.snap(p, True) for p in shared['others']]


def world(s, which):
    with mkworld(s) as w:
        sh = mk(w, s)
        before = snapall(sh)
        ids = [id(e) for e in sh['pattern'].events]
        fns = [(lambda t=t, tid=tid: run1(w, sh, tid, t)) for tid, t in enumerate(s['threads']) if tid in which]
        r = conc.threads(w.fs, fns, s['switches'] if len(which) > 1 else [], s.get('total', 1))
        r.changed = lib.differ(before, snapall(sh))
        if not r.changed and ids != [id(e) for e in sh['pattern'].events]:
            r.changed = ['the events of the pattern are other objects']
        return r


def run1(w, sh, tid, t):
    w.fs.begin(('t', tid))
    try:
        return [one(w, sh, op) for op in t['ops']]
    finally:
        w.fs.end()


def run(s, o):
    n = len(s['threads'])
    solo = [world(s, [t]) for t in range(n)]
    s['total'] = sum(r.step for r in solo)
    for t in range(n):
        if solo[t].changed:
            o.bad('changed', '%s: %s' % (words(s['threads'][t]), '; '.join(solo[t].changed)))
            return
    r = world(s, list(range(n)))
    o.steps += r.step
    if r.nswitch > n - 1:
        o.nontrivial = True
        o.sigs.append(r.sig)
    o.fired({'thread switch': r.nswitch})
    for x in s['threads']:
        for op in x['ops']:
            o.probe(op['on'])
    o.note([x.out for x in solo], r.out)
    for t in range(n):
        d = lib.differ(solo[t].out[0], r.out[t])
        if d:
            o.bad('other result', 'thread %d (%s) together with %s: %s' % (
                t, words(s['threads'][t]), '; '.join(words(x) for k, x in enumerate(s['threads']) if k != t), '; '.join(d)))
            return
    if r.changed:
        o.bad('changed together', '%s: %s' % ('; '.join(words(x) for x in s['threads']), '; '.join(r.changed)))


def words(t):
    return '+'.join(op['op']['k'] if 'op' in op else op['desc'] for op in t['ops'])
