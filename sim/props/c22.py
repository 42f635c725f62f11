# -*- coding: utf-8 -*-
"""C22: the same calls on equal objects give the same results, bytes and orders, wherever in whichever process they are made."""
from __future__ import absolute_import, division, print_function

import conc
import lib
import ops
import pure
from props import c10
from props.history import genfs, mkworld
from prng import mix
from sched import Interrupter

RUNS = {'quick': 3000, 'thorough': 120000}
JRUNS = {'quick': 50, 'thorough': 2000}
RERUN = {'quick': 1200, 'thorough': 12000}
DETERMINISM_IS_THE_PROPERTY = True
RULE = ('a run is two to five jobs (a session of edits and queries on one pattern, a save, a load, a MIDI import, a style, descriptors), each alone in a process of its own, '
        'then all of them in one process, some twice, with cancelled and failing calls in between; results, in the order in which they are given, and the bytes of '
        'text and MIDI files are compared, and for a sample of the runs also with processes of other hash seeds; '
        'non-trivial: a job came after others, a cancelled or a failed one in its process; distinct: scenario differs')
MEASURE = 'job x jobs before it in the process (kinds, cancelled, failed)'
REAL = ['gsapi (all modules, from the working tree)', 'json', 'pickle', 'glob', 'io buffering and text layers', 'the hash seed of the interpreter']
STUB = ['disk: in-memory file system (sim/simfs.py)', 'entropy of unseeded generators: seeded per process', 'cancellation at a source line of gsapi']
ASSUMPTIONS = ['results that are sets have no order', 'bytes of pickle files are not compared, only what they hold',
               'the same interpreter']


def gsession(r):
    p = pure.gpat(r, 10)
    l = []
    for _ in range(r.rint(1, 6)):
        l.append(pure.gop(r, p, pure.EDIT if r.chance(0.6) else pure.READ, ('json', 'midi', 'pickle', 'w2p')))
    return {'k': 'session', 'pattern': p, 'ops': l}


def gstyle(r):
    st = ops.gstyle(r)
    return {'k': 'style session', 'style': st,
            'ops': [pure.gstyleop(r, st['steps'], [k for k in sorted(pure.STYLE) if k not in ('stylejson', 'stylepickle')]) for _ in range(r.rint(1, 6))]}


def gen(r, tier, i):
    s = {'seed': r.below(1 << 30), 'fs': genfs(r), 'jobs': [], 'order': []}
    n = r.rint(2, 5)
    for k in range(n):
        if k and r.chance(0.4):
            # like one before, with other contents
            prev = r.choice(s['jobs'])
            if prev['k'] == 'session':
                j = gsession(r)
            elif prev['k'] == 'style session':
                j = gstyle(r)
            else:
                for _ in range(20):
                    j = c10.gjob(r, prev['k'], 0, k, prev if 'op' in prev or 'map' in prev else None)
                    if j['k'] not in ('save', 'load') or c10.kindof(j) == c10.kindof(prev):
                        break
        else:
            kind = r.weighted([(5, 'session'), (2, 'style session')] + c10.KINDS)
            j = gsession(r) if kind == 'session' else gstyle(r) if kind == 'style session' else c10.gjob(r, kind, 0, k, None)
        s['jobs'].append(j)
    for k in r.shuffled(list(range(n))) + [r.below(n) for _ in range(r.rint(0, 3))]:
        if r.chance(0.35):
            s['order'].append(['cancel', r.below(n), r.float()])
        if r.chance(0.25):
            s['order'].append(['fail', r.below(n), r.choice([['open', 'eio'], ['read', 'eio'], ['create', 'eio'], ['write', 'enospc'], ['close', 'eio']])])
        s['order'].append(['do', k, 0])
    return s


def prepare(w, j, n):
    if 'session' not in j['k']:
        return c10.prepare(w, dict(j), {}, 0, n)
    u = c10.Unit()
    u.j, u.api = j, w.api
    u.p = ops.mkstyle(w.api, j['style']) if 'style' in j else lib.build(w.api, j['pattern'])
    u.call = ('t', 0, n)
    return u


def go(w, u):
    if 'session' not in u.j['k']:
        return c10.go(w, u)
    w.fs.begin(u.call)
    try:
        out = []
        for op in u.j['ops']:
            out.append(pure.apply(u.api, u.p, op))
        return ['ok', out]
    finally:
        w.fs.end()


def finish(w, u, x):
    """What the job gave and left."""
    k = u.j['k']
    if k == 'save':
        f = w.fs.norm(u.q.rel)
        d = [c10.saved(w, u, x)]
        if u.j['job']['op'] in ('json', 'midi', 'stylejson', 'dbjson') and u.q.rel in w.fs.files:
            d.append(lib.digest(repr(list(bytearray(w.fs.get(f))))))
        return [x, d]
    if k == 'style session':
        return [x, ops.cstyle(u.p)]
    if k in ('pure', 'session'):
        return [x, lib.snap(u.p, True)]
    return [x]


def name(j):
    if j['k'] == 'session':
        return 'edits (%s)' % ','.join(o['k'] for o in j['ops'])
    if j['k'] == 'style session':
        return 'a style (%s)' % ','.join(o['k'] for o in j['ops'])
    return c10.words({'jobs': [j]})


def run(s, o):
    alone, counts = [], []
    for n, j in enumerate(s['jobs']):
        with mkworld(s) as w:
            u = prepare(w, j, n)
            if any(k[0] == 'cancel' and k[1] == n for k in s['order']):
                it = Interrupter()
                x = it(go, w, u)
                counts.append(it.n)
            else:
                x = go(w, u)
                counts.append(0)
            alone.append(finish(w, u, x))
            o.note(name(j), alone[-1])
    with mkworld(s) as w:
        proc = conc.process(w)
        before = []
        for what, n, arg in s['order']:
            j = s['jobs'][n]
            u = prepare(w, j, n)
            o.steps += 1
            if what == 'cancel':
                it = Interrupter(at=1 + int(arg * max(1, counts[n])))
                try:
                    it(go, w, u)
                except KeyboardInterrupt:
                    pass
                if it.fired:
                    o.fired({'cancelled': 1})
                    before.append(name(j) + ' (cancelled)')
                continue
            if what == 'fail':
                w.fs.faults[(u.call, arg[0], 0)] = {'kind': arg[1]}
                f = sum(w.fs.fired.values())
                go(w, u)
                w.fs.faults = {}
                if sum(w.fs.fired.values()) > f:
                    o.fired({arg[1]: 1})
                    before.append(name(j) + ' (failed)')
                continue
            got = finish(w, u, go(w, u))
            o.probe(j['k'])
            if before:
                o.nontrivial = True
            o.sigs.append(mix(name(j), '; '.join(b.split('(')[0] for b in before)))
            d = lib.differ(alone[n], got)
            if d:
                o.bad('other result', '%s gives something else after %s in the same process than in a process of its own: %s' % (
                    name(j), '; '.join(before) or 'nothing', '; '.join(d)))
                return
            before.append(name(j))
        p2 = conc.process(w)
        d = [x for x in sorted(proc) if p2[x] != proc[x] and x != 'global random generator']
        if d:
            o.bad('process state', '%s changed the %s' % ('; '.join(before), ', '.join(d)))
