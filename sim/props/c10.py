# -*- coding: utf-8 -*-
"""C10: threads that use gsapi for different things do not notice each other."""
from __future__ import absolute_import, division, print_function

import conc
import lib
import ops
import pure
from props import c08
from props.history import genfs, mkworld
from prng import mix
from simfs import PY3, SimCrash

RUNS = {'quick': 2800, 'thorough': 60000}
JRUNS = {'quick': 30, 'thorough': 1500}
RULE = ('a run is two or three threads with one to three calls each (saves, loads, MIDI imports, operations on patterns, styles), on '
        'objects of their own, in folders that they share and that may not exist yet, with storage faults in some of them; each result is compared with the same calls alone; '
        'non-trivial: at least one thread was switched inside gsapi; distinct: scenario differs')
MEASURE = 'distinct sequences of (thread, source line, next thread) at the switches'
REAL = ['gsapi (all modules, from the working tree)', 'json', 'pickle', 'glob', 'io buffering and text layers', 'real threads, one at a time']
STUB = ['thread scheduler: preempts at source lines of gsapi and at disk operations (sim/sched.py)', 'disk: in-memory file system',
        'randomness: seeded per run']
ASSUMPTIONS = ['preemption at source lines, not inside one line', 'unseeded random choices are not compared']

KINDS = [(6, 'save'), (4, 'load'), (5, 'import'), (8, 'pure'), (3, 'style'), (4, 'desc'), (2, 'build')]


def gjob(r, k, tid, n, prev):
    if k == 'save':
        j = ops.gsave(r)
        j.pop('older', None)
        own(j, tid, n)
        return {'k': k, 'job': j}
    if k == 'load':
        j = ops.gload(r)
        if j['op'] == 'load':
            own(j['of'], tid, n)
        else:
            j['folder'] = '/sim/in/%d/%d' % (tid, n)
            j['files'] = j['files'][:3]
        return {'k': k, 'job': j}
    if k == 'import':
        f = c08.gfile(r, None)
        f['name'] = 't%dn%d' % (tid, n) + f['name']
        m = r.choice([None, 'simpleDrumMap', {'Kick': 36, 'Snare': [38, 40], 'Hat': [[42, '*'], [44, 1]]}, {'Kick': 36, 'Snare': 38, 'Hat': 42, 'Tom': 45, 'Clap': 39}, {'x': [60, 61, 62], 'y': 62},
                      {'pitchName': ['do', 'di', 're', 'ri', 'mi', 'fa', 'fi', 'so', 'si', 'la', 'li', 'ti']}])
        if prev and r.chance(0.7):
            m = prev['map']
        byname = m not in (None, 'simpleDrumMap') and 'pitchName' not in m and r.chance(0.4)
        if byname and r.chance(0.6):
            # names that say several tags
            for t in f['tracks']:
                if r.chance(0.7):
                    t['name'] = ' '.join(r.shuffled(sorted(m))) if r.chance(0.7) else r.choice(sorted(m)) + ' 1'
        return {'k': k, 'file': f, 'map': m, 'byname': byname}
    if k == 'desc':
        p = pure.gpat(r)
        return {'k': 'pure', 'pattern': p, 'op': pure.gop(r, p, ['chord', 'chord', 'chord', 'space', 'sync', 'density2', 'density3', 'density', 'ntags', 'ntags2', 'learn', 'learngen', 'filled', 'split'])}
    if k == 'pure':
        p = pure.gpat(r)
        op = pure.gop(r, p, dict(pure.READ, **pure.EDIT), ('json', 'midi', 'pickle', 'w2p'))
        if prev:
            for _ in range(40):
                if op['k'] == prev['op']['k']:
                    break
                op = pure.gop(r, p, [prev['op']['k']])
        return {'k': k, 'pattern': p, 'op': op}
    if k == 'style':
        return {'k': k, 'style': ops.gstyle(r), 'seed': r.below(1000), 'n': r.rint(1, 3)}
    return {'k': k, 'pattern': pure.gpat(r)}


def own(j, tid, n):
    """A file of its own."""
    if 'pattern' in j:
        j['pattern']['name'] = 't%dn%d' % (tid, n) + j['pattern']['name'][:12]
    if j.get('name'):
        j['name'] = 't%dn%d' % (tid, n) + j['name']
    if 'file' in j:
        j['file'] = j['file'].replace('db', 'db%d%d' % (tid, n)).replace('style', 'style%d%d' % (tid, n))
        if 't%d' % tid not in j['file']:
            j['file'] += '.t%dn%d' % (tid, n)


def gen(r, tier, i):
    s = {'seed': r.below(1 << 30), 'fs': genfs(r), 'threads': []}
    n = r.weighted([(4, 2), (1, 3)])
    twin = r.chance(0.6)
    prevs = []
    folder = r.choice(['/sim/new', '/sim/new/er/deep', 'rel/new', './output/'])
    same = r.chance(0.5)
    for tid in range(n):
        jobs = []
        for k in range(r.weighted([(4, 1), (2, 2), (1, 3)])):
            prev = prevs[k] if twin and tid and k < len(prevs) else None
            if prev is not None:
                for _ in range(60):
                    j = gjob(r, prev['k'], tid, k, prev)
                    if j['k'] not in ('save', 'load') or kindof(j) == kindof(prev):
                        break
            else:
                j = gjob(r, r.weighted(KINDS), tid, k, None)
            if same and j['k'] == 'save' and 'folder' in j['job']:
                j['job']['folder'] = folder
            if j['k'] in ('save', 'load', 'import') and r.chance(0.12):
                j['fault'] = {'kind': r.choice(['eio', 'eio', 'enospc', 'interrupt', 'nomem']), 'on': r.choice(['create', 'write', 'close'] if j['k'] == 'save' else ['open', 'read', 'close']),
                              'n': r.choice([0, 0, 0, 1, 2])}
            jobs.append(j)
        if not tid:
            prevs = jobs
        s['threads'].append({'jobs': jobs})
    s['switches'] = conc.gswitches(r, n)
    return s


def kindof(j):
    return j['job']['op'] + (j['job']['of']['op'] if j['job']['op'] == 'load' else '')


class Unit(object):
    pass


def prepare(w, j, maps, tid, n):
    u = Unit()
    u.j, u.api, u.call = j, w.api, ('t', tid, n)
    u.q = u.p = None
    if j['k'] == 'save':
        u.q = ops.prepare(w, j['job'])
    elif j['k'] == 'load':
        u.q = ops.prepare_load(w, j['job'])
    elif j['k'] == 'import':
        key = lib.digest(j['map'])
        if key not in maps:
            maps[key] = ops.mkmap(w.api, j['map'])
        u.map = maps[key]
        u.path = '/sim/in/' + j['file']['name']
        w.fs.put(u.path, c08.encode(j['file']))
    elif j['k'] == 'pure':
        u.p = lib.build(w.api, j['pattern'])
    if 'fault' in j:
        w.fs.faults[(u.call, j['fault']['on'], j['fault']['n'])] = {'kind': j['fault']['kind']}
    return u


def go(w, u):
    j = u.j
    w.fs.begin(u.call)
    try:
        if j['k'] == 'save':
            return ['ok', ops.call(u.q)]
        if j['k'] == 'load':
            return ['ok', ops.call_load(u.q)]
        if j['k'] == 'import':
            kw = {'tagFromTrackName': True} if j['byname'] else {}
            return ['ok', lib.snap(u.api.gsio.fromMidiFile(u.path, u.map, **kw), True)]
        if j['k'] == 'pure':
            return pure.apply(u.api, u.p, j['op'])
        if j['k'] == 'style':
            st = ops.mkstyle(u.api, j['style'])
            out = [ops.cstyle(st)]
            for k in range(j['n']):
                out.append(generate(st, j['seed'] + k))
            return ['ok', out]
        return ['ok', lib.snap(lib.build(u.api, j['pattern']), True)]
    except (Exception, KeyboardInterrupt) as e:
        if type(e).__name__ in ('Stuck', 'Hang'):
            raise
        return ['raises', type(e).__name__]
    finally:
        w.fs.end()


def generate(st, seed):
    try:
        return ['ok', lib.snap(st.generatePattern(seed))]
    except (IndexError, Exception) as e:
        if type(e).__name__ in ('Stuck', 'Hang'):
            raise
        return ['raises', type(e).__name__]


def world(s, which):
    """Runs the threads named; their results, as they are after all of them have ended."""
    with mkworld(s) as w:
        maps = {}
        units = [[prepare(w, j, maps, tid, n) for n, j in enumerate(t['jobs'])] for tid, t in enumerate(s['threads'])]
        before = w.fs.snapshot()
        proc = conc.process(w)
        fns = [(lambda us=us: [go(w, u) for u in us]) for tid, us in enumerate(units) if tid in which]
        r = conc.threads(w.fs, fns, s['switches'] if len(which) > 1 else [], s.get('total', 1))
        r.proc = [k for k, v in sorted(conc.process(w).items()) if v != proc[k] and k != 'global random generator']
        r.fired = dict(w.fs.fired)
        after = w.fs.snapshot()
        r.files = sorted(p for p in after if after[p] != before.get(p))
        r.outside = w.fs.outside
        r.maps = dict((k, lib.ctag(m)) for k, m in maps.items())
        w.fs.faults = {}
        k = 0
        for tid, us in enumerate(units):
            if tid not in which:
                continue
            if r.out[k][0] == 'ok':
                for u, x in zip(us, r.out[k][1]):
                    if u.j['k'] == 'save':
                        x.append(saved(w, u, x))
                    elif u.j['k'] == 'pure':
                        x.append(lib.snap(u.p, True))
            k += 1
        return r


def saved(w, u, x):
    if u.q.rel not in w.fs.files:
        return 'no file'
    if x[0] != 'ok':
        return 'a file'
    try:
        got = ops.load(w.api, u.q.job, u.q.rel)
    except Exception as e:
        return 'loading raises %s' % type(e).__name__
    return lib.snap(got, True) if u.q.job['op'] == 'midi' else got


def run(s, o):
    n = len(s['threads'])
    solo = [world(s, [t]) for t in range(n)]
    s['total'] = sum(r.step for r in solo)
    r = world(s, list(range(n)))
    o.steps += r.step
    o.fired(r.fired)
    if r.nswitch > n - 1:
        o.nontrivial = True
        o.sigs.append(r.sig)
    o.fired({'thread switch': r.nswitch})
    for j in s['threads'][0]['jobs']:
        o.probe(j['k'])
    o.note([x.out for x in solo], r.out)
    for t in range(n):
        d = lib.differ(solo[t].out[0], r.out[t])
        if d:
            o.bad('disturbed', 'thread %d (%s) together with %s: %s' % (
                t, words(s['threads'][t]), '; '.join(words(x) for k, x in enumerate(s['threads']) if k != t), '; '.join(d)))
            return
    files = sorted(set(p for x in solo for p in x.files))
    if files != r.files:
        o.bad('other files', 'files changed together: %s, alone: %s' % (r.files, files))
    for x in solo + [r]:
        if x.proc:
            o.bad('process state', 'after %s something that belongs to the whole process is different: %s' % (
                ', '.join(words(t) for t in s['threads']), ', '.join(x.proc)))
            return
    if r.maps != solo[0].maps:
        o.bad('mapping changed', 'a mapping shared by imports is different afterwards')


def words(t):
    return '+'.join(j['op']['k'] if j['k'] == 'pure' else kindof(j) if 'job' in j else j['k'] for j in t['jobs']) or 'nothing'
