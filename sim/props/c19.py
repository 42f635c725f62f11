# -*- coding: utf-8 -*-
"""C19: a descriptor's value is that of the pattern as it is now, whatever the descriptor (or the pattern) was used for before."""
from __future__ import absolute_import, division, print_function

import copy
import pickle

import lib
import model
import pure
from props import c20
from props.history import genfs, mkworld
from prng import mix
from sched import Interrupter

RUNS = {'quick': 12000, 'thorough': 250000}
JRUNS = {'quick': 100, 'thorough': 3000}
RULE = ('a run is a history over a few descriptors (each with its settings) and a few patterns: values, viewpoints by length, by event and of the whole, '
        'edits of patterns, changed settings, copies and pickles of descriptors, calls that fail or are cancelled; '
        'every value is compared with an independent reference; '
        'non-trivial: a descriptor was asked again after it was asked about another pattern or that one was edited; distinct: scenario differs')
MEASURE = 'descriptor x what it was used for before'
REAL = ['gsapi.gsdescriptors', 'gsapi.gsextractors', 'gsapi.gspattern']
STUB = ['cancellation: an exception raised at a source line of gsapi']
ASSUMPTIONS = ['times are sums of powers of two', 'of chords that fit equally well (within 1e-9) any may come']

KINDS = ['density', 'tags', 'sync', 'sync', 'chord', 'chord', 'space']
# as documented: semitones above the root
TYPES = {'0': [0], '5': [0, 7], 'maj(omit5)': [0, 4], 'min(omit5)': [0, 3], 'd5': [0, 6], 'maj': [0, 4, 7], 'min': [0, 3, 7], 'aug': [0, 4, 8],
         'dim': [0, 3, 6], 'sus4': [0, 5, 7], 'sus2': [0, 2, 7], '7': [0, 4, 7, 10], 'maj7': [0, 4, 7, 11], 'min7': [0, 3, 7, 10],
         'min(maj7)': [0, 3, 7, 11], 'min7(b5)': [0, 3, 6, 10], 'dim7': [0, 3, 6, 9], '6': [0, 4, 7, 9], 'min6': [0, 3, 7, 9],
         'add9': [0, 4, 7, 14], 'min(add9)': [0, 3, 7, 14], '7sus4': [0, 5, 7, 10], 'add11': [0, 4, 7, 17], 'min(add11)': [0, 3, 7, 16],
         '9': [0, 4, 7, 10, 14], 'b9': [0, 4, 7, 10, 13], 'maj9': [0, 4, 7, 11, 14], 'min9': [0, 3, 7, 10, 14],
         '11': [0, 4, 7, 10, 14, 17], 'maj11': [0, 4, 7, 11, 14, 17], 'min11': [0, 3, 7, 10, 14, 17], '13': [0, 4, 7, 10, 14, 17, 21]}
SPACE = {'numberOfInstruments': None, 'loD': ['Kick', 'low Congas'], 'midD': ['snare', 'rimshot', 'hiconga'], 'hiD': ['closed hihat', 'shaker', 'clave']}


def gpat(r):
    p = c20.gpat(r)
    if r.chance(0.4):
        # chords
        root = r.rint(36, 60)
        p['events'] = []
        t = 0
        for k in range(r.rint(1, 4)):
            d = r.choice([1, 2, 4])
            for x in r.choice([[0, 4, 7], [0, 3, 7], [0, 2], [0], [0, 4, 7, 10], [0, 1, 2, 3], [0, 5, 7]]):
                p['events'].append([t, d, root + x + r.choice([0, 12]), 80, r.choice(['C4', 'E3', 'Kick'])])
            t += d
            root += r.rint(-5, 5)
        p['duration'] = t if r.chance(0.7) else p['duration']
    else:
        for e in p['events']:
            if r.chance(0.15):
                e[4] = r.choice(['snare', 'shaker', 'clave', 'rimshot'])
    return p


def gdesc(r):
    k = r.choice(KINDS)
    d = {'kind': k}
    if k in ('density', 'tags'):
        d['ignored'] = r.choice([None, None, ['silence'], ['Snare'], ['Kick', 'silence', ['t', 'one', 'two']]])
        d['included'] = r.choice([None, None, ['Kick'], ['Kick', 'Snare'], [['t', 'one', 'two'], 'Chh']])
    elif k == 'chord':
        d['mm'], d['dup'] = r.chance(0.3), r.chance(0.3)
    return d


def gen(r, tier, i):
    s = {'seed': r.below(1 << 30), 'fs': genfs(r), 'patterns': [gpat(r) for _ in range(r.rint(1, 3))], 'descs': [gdesc(r) for _ in range(r.rint(1, 3))], 'ops': []}
    for k in range(r.rint(3, 14)):
        do = r.weighted([(8, 'value'), (3, 'vp'), (5, 'edit'), (1, 'config'), (1, 'copy'), (2, 'cancel'), (1, 'fail')])
        op = {'do': do, 'p': r.below(3), 'd': r.below(3)}
        if do == 'vp':
            op['slice'] = r.choice([4, 1, 2, 'all', 'perEvent'])
            op['default'] = r.chance(0.15)
        elif do == 'edit':
            op['op'] = c20.gop(r, s['patterns'][op['p'] % len(s['patterns'])], [x for x in c20.CHANGE if x not in ('vp', 'field')] + ['field'])
        elif do == 'config':
            op['to'] = gdesc(r)
            op['within'] = r.chance(0.4)
        elif do == 'copy':
            op['how'] = r.choice(['copy', 'pickle'])
            op['both'] = r.chance(0.6)
            if r.chance(0.6):
                # and then it or its copy gets other settings, and both are asked
                s['ops'] += [op, {'do': 'config', 'p': op['p'], 'd': r.choice([op['d'], 9]), 'to': gdesc(r), 'within': True, 'like': True},
                             {'do': 'value', 'p': op['p'], 'd': 9}]
                op = {'do': 'value', 'p': op['p'], 'd': op['d']}
        elif do == 'cancel':
            op['at'] = r.float()
        s['ops'].append(op)
    return s


def make(api, d):
    g = api.gsdescriptors
    tags = lambda l: None if l is None else [lib.mktag(api, t) for t in l]
    if d['kind'] == 'density':
        return g.Density(ignoredTags=tags(d['ignored']), includedTags=tags(d['included']))
    if d['kind'] == 'tags':
        return g.NumberOfTags(ignoredTags=tags(d['ignored']), includedTags=tags(d['included']))
    if d['kind'] == 'sync':
        return g.Syncopation()
    if d['kind'] == 'chord':
        return g.Chord(forceMajMin=d['mm'], allowDuplicates=d['dup'])
    return api.gsextractors.DensityDrumSpace()


def config(api, x, d, to, within=False, like=False):
    """The settings of one of the same kind, put into the lists of tags it has or into new ones."""
    if like and to['kind'] != d['kind'] and 'ignored' in d:
        to = dict(d, ignored=['Kick', 'C4'], included=None)
    if d['kind'] != to['kind'] or d['kind'] in ('sync', 'space'):
        return
    y = make(api, to)
    for f in ('ignoredTags', 'includedTags', 'forceMajMin', 'allowDuplicates'):
        if within and isinstance(getattr(x, f, None), list) and isinstance(getattr(y, f), list):
            getattr(x, f)[:] = getattr(y, f)
        elif hasattr(y, f):
            setattr(x, f, getattr(y, f))
    d.update(to)


def value(x, d, p):
    return x.getFeatureSpace(p) if d['kind'] == 'space' else x.getDescriptorForPattern(p)


def wrong(d, m, got):
    """What is wrong with a value, or None."""
    tags = lambda l: None if l is None else [model.mtag(t) for t in l]
    k = d['kind']
    if k in ('density', 'tags'):
        want = model.VALUE[k](m, tags(d['ignored'] or ['silence']), tags(d['included']))
    elif k == 'sync':
        want = model.syncopation(m)
    elif k == 'space':
        if not isinstance(got, dict) or sorted(got) != sorted(SPACE):
            return 'features %s' % lib.short(pure.canon(got))
        for f in sorted(SPACE):
            want = model.density(m, ('silence',), SPACE[f]) if SPACE[f] else model.ntags(m)
            if abs(got[f] - want) > 1e-9:
                return '%s is %s instead of %s' % (f, got[f], want)
        return None
    else:
        sc = model.chords(m, dict((t, TYPES[t]) for t in (['maj', 'min'] if d['mm'] else TYPES)))
        if sc is None:
            return None if got == 'silence' else '%s instead of silence' % lib.short(pure.canon(got))
        best = max(sc.values())
        l = list(got) if d['dup'] else [got]
        if not l or got == 'silence':
            return '%s instead of a chord' % lib.short(pure.canon(got))
        for c in l:
            if not isinstance(c, tuple) or tuple(c) not in sc:
                return '%s is no chord' % lib.short(pure.canon(c))
            if sc[tuple(c)] < best - 1e-9:
                return '%s (fits %s) instead of %s (%s)' % (lib.short(pure.canon(c)), sc[tuple(c)], [x for x in sc if sc[x] == best], best)
        if len(set(c[1] for c in l)) < len(l):
            return 'a chord type twice: %s' % lib.short(pure.canon(got))
        return None
    return None if abs(got - want) < 1e-9 else '%s instead of %s' % (got, want)


def parts(m, how):
    if how == 'all':
        l = [m]
    elif how == 'perEvent':
        model.sort(m)
        l = []
        for t in sorted(set(e[0] for e in m['events'])):
            p = model.bare(m)
            p['start'], p['events'] = t, model.active(m, t)
            p['duration'] = max([model.end(e) - t for e in p['events']] or [0])
            l.append(p)
    else:
        l = model.split(m, how, True)
    return [p for p in l if p['events']]


def run(s, o):
    with mkworld(s) as w:
        ps = [lib.build(w.api, x) for x in s['patterns']]
        ms = [model.pattern(x) for x in s['patterns']]
        ds = [dict(x) for x in s['descs']]
        xs = [make(w.api, x) for x in ds]
        before = ['new'] * len(xs)
        fresh = [None] * len(xs)
        vers = [0] * len(ps)
        for op in s['ops']:
            i, j = op['p'] % len(ps), op['d'] % len(ds) if op['d'] != 9 else len(ds) - 1   # 9: the newest
            do, d = op['do'], ds[j]
            o.steps += 1
            if do == 'edit':
                k, a = op['op']['k'], op['op']['a']
                if not c20.allowed(ms[i], op['op']):
                    continue
                r = pure.apply(w.api, ps[i], op['op'])
                if r[0] != 'ok':
                    o.probe('edit raised')      # C20's matter
                    return
                c20.medit(ms[i], k, a)
                if lib.differ(c20.fields(dict(ms[i], anyorder=1, vp={})), c20.fields(dict(model.of(ps[i]), anyorder=1, vp={}))):
                    o.probe('edit differs')     # C20's matter, too
                    return
                ms[i]['events'] = [list(e) for e in model.of(ps[i])['events']]
                ms[i].pop('anyorder', None)
                vers[i] += 1
            elif do == 'config':
                config(w.api, xs[j], d, op['to'], op.get('within'), op.get('like'))
            elif do == 'copy':
                x = copy.deepcopy(xs[j]) if op['how'] == 'copy' else pickle.loads(pickle.dumps(xs[j], 2))
                if op.get('both'):
                    xs.append(x)
                    ds.append(dict(d))
                    before += ['copied']
                    fresh += [None]
                else:
                    xs[j] = x
                before[j] = 'copied'
            elif do == 'fail':
                q = ps[i].copy()
                q.duration = None
                for e in q.events:
                    e.pitch = e.duration = None
                try:
                    value(xs[j], d, q)
                except (TypeError, ValueError):
                    o.fired({'bad pattern': 1})
                before[j] = 'failed'
            elif do == 'cancel':
                it = Interrupter()
                it(value, make(w.api, d), d, ps[i])
                it = Interrupter(at=1 + int(op['at'] * it.n))
                try:
                    it(value, xs[j], d, ps[i])
                except KeyboardInterrupt:
                    o.fired({'cancelled': 1})
                    o.sigs.append(mix(d['kind'], it.where))
                before[j] = 'cancelled'
            elif do == 'value':
                got = value(xs[j], d, ps[i])
                bad = wrong(d, ms[i], got)
                o.note(d['kind'], pure.canon(got))
                if bad:
                    o.bad('value', '%s %s of a pattern, after %s: %s' % (d['kind'], lib.short(d), before[j], bad))
                    return
                if fresh[j] is not None and fresh[j] != (i, vers[i]):
                    o.nontrivial = True
                fresh[j] = (i, vers[i])
                o.sigs.append(mix(d['kind'], before[j], repr(ms[i]['duration']), len(ms[i]['events'])))
                before[j] = 'value'
            elif do == 'vp' and d['kind'] != 'space' and c20.allowed(ms[i], {'k': 'split', 'a': {}}):
                if op['default']:
                    d = {'kind': 'chord', 'mm': False, 'dup': False}
                    v = ps[i].generateViewpoint('chords')
                    how = 4
                else:
                    how = op['slice']
                    v = ps[i].generateViewpoint('view', xs[j], how)
                want = parts(ms[i], how)
                what = 'viewpoint (%s, %s %s) after %s' % (how, d['kind'], lib.short(d), before[j])
                if len(v.events) != len(want):
                    o.bad('viewpoint', '%s has %d events instead of %d' % (what, len(v.events), len(want)))
                    return
                for e, p in zip(v.events, want):
                    if (e.startTime, e.duration) != (p['start'], p['duration']):
                        o.bad('viewpoint', '%s: an event at %s for %s instead of %s for %s' % (what, e.startTime, e.duration, p['start'], p['duration']))
                        return
                    got = e.tag
                    bad = wrong(d, p, got)
                    if bad:
                        o.bad('viewpoint', '%s: at %s %s' % (what, p['start'], bad))
                        return
                o.note(len(v.events))
                o.sigs.append(mix(d['kind'], 'vp', how, before[j], len(want)))
                before[j] = 'viewpoint'
