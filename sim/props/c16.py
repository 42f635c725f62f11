# -*- coding: utf-8 -*-
"""C16: styles that were saved and loaded, over any number of processes, behave like the ones that were learned."""
from __future__ import absolute_import, division, print_function

import lib
import ops
import pure
from props import c14
from props.history import genfs, mkworld
from prng import mix
from simfs import PY3, SimCrash

RUNS = {'quick': 7000, 'thorough': 120000}
JRUNS = {'quick': 60, 'thorough': 2500}
RERUN = {'quick': 600, 'thorough': 6000}
DETERMINISM_IS_THE_PROPERTY = True
RULE = ('a run is a history over a few styles and files: learning, saving (JSON, pickle), loading into new and into used styles, failing loads and crashed saves of '
        'other files, restarts, generating and asking the tables; everything is compared with a style freshly learned from the same patterns; '
        'non-trivial: a style was loaded and asked; distinct: scenario differs')
MEASURE = 'sequence of learning, saving, loading and restarting that led to the style asked'
REAL = ['gsapi.gsstyles', 'gsapi.gspattern', 'json', 'pickle', 'io buffering', 'the hash seed of the interpreter']
STUB = ['disk: in-memory file system (sim/simfs.py)']
ASSUMPTIONS = ['a DatabaseStyle is loaded from JSON into one with the same ordering, which the file does not hold']

ASK = ['gen', 'gen', 'gen', 'gen', 'state', 'states', 'atstep', 'matrix', 'config']


def gstyle(r):
    if r.chance(0.25):
        st = {'kind': 'db', 'ordering': r.choice(['indexed', 'random', 'increasing']),
              'patterns': [dict(lib.gpattern(r, False, 'plain', maxev=5), name='d%d' % k) for k in range(r.rint(1, 4))]}
        if r.chance(0.3):
            # some more than once
            st['patterns'] += [r.choice(st['patterns']) for _ in range(r.rint(1, 4))]
        return st
    steps = r.choice([4, 8, 8, 16])
    st = {'kind': 'markov', 'order': min(r.choice([1, 1, 2, 3]), steps - 1), 'steps': steps, 'loop': r.choice([4, 2, 8, 4.0, 1.5, 0.5, 3])}
    st['patterns'] = c14.gpats(r, steps, st['loop'], r.rint(1, 5) if r.chance(0.96) else r.rint(8, 20)) if not r.chance(0.04) else []
    if r.chance(0.03):
        st['unlearned'] = True
    return st


def gen(r, tier, i):
    s = {'seed': r.below(1 << 30), 'fs': genfs(r), 'styles': [gstyle(r) for _ in range(r.rint(1, 3))], 'ops': []}
    # what is where, roughly, so that most steps have something to work on
    slots, files = [0], []
    s['ops'].append({'do': 'learn', 'style': r.below(10), 'slot': 0, 'file': 0, 'fmt': 'json', 'at': 0})
    for k in range(r.rint(3, 12)):
        do = r.weighted([(1, 'learn'), (4, 'save'), (5, 'load'), (2, 'restart'), (4, 'ask'), (1, 'badload'), (1, 'crash')])
        if do in ('load', 'badload') and not files or do in ('save', 'ask', 'crash') and not slots:
            do = 'save' if slots else 'load' if files else 'learn'
        op = {'do': do, 'style': r.below(10), 'slot': r.below(3), 'file': r.below(3), 'fmt': r.choice(['json', 'json', 'pickle']), 'at': r.float()}
        if do in ('save', 'ask', 'crash', 'badload') and slots:
            op['slot'] = r.choice(slots)
        if do in ('load', 'badload') and files:
            op['file'] = r.choice(files)
        if do in ('learn', 'load') and op['slot'] not in slots:
            slots.append(op['slot'])
        if do == 'save' and op['file'] not in files:
            files.append(op['file'])
        if do in ('restart', 'crash'):
            slots = []
        if do == 'ask':
            op['q'] = gask(r)
        if do == 'load':
            op['into'] = r.choice(['new', 'new', 'used'])
        s['ops'].append(op)
        if do == 'load' and r.chance(0.7):
            s['ops'].append(dict(op, do='ask', q=gask(r)))
    return s


def gask(r):
    return [{'k': r.choice(ASK), 'a': {'seed': r.below(1000), 'reduce': r.chance(0.5), 'json': r.chance(0.5), 'n': r.below(4)}} for _ in range(r.rint(1, 3))]


def fresh(w, x, learn=True):
    g = w.api.gsstyles
    if x['kind'] == 'db':
        st = g.DatabaseStyle(x['ordering'])
    else:
        st = g.MarkovStyle(order=x['order'], numSteps=x['steps'], loopDuration=x['loop'])
    if learn and not x.get('unlearned'):
        st.generateStyle([lib.build(w.api, p) for p in x['patterns']])
    return st


def blank(w, x, fmt, n):
    """A style to load into, configured otherwise if that does not matter."""
    g = w.api.gsstyles
    if x['kind'] == 'db':
        return g.DatabaseStyle(x['ordering'] if fmt == 'json' else 'indexed')
    return g.MarkovStyle() if n % 2 else g.MarkovStyle(order=5, numSteps=7, loopDuration=3)


def count(x, q, pos):
    """How many patterns of a database are asked for: those in increasing order come to an end."""
    return 3 if x['ordering'] != 'increasing' else min(1 + q['a']['seed'] % 3, len(x['patterns']) - pos)


def ask(w, st, x, q, viajson, pos=0):
    if x['kind'] == 'db':
        r = []
        for k in range(count(x, q, pos)):
            p = st.generatePattern(q['a']['seed'] + k)
            r.append(ops.json_expected(p) if viajson else pattern(p))
            if viajson:
                del r[-1]['origin']
        return ['ok', r, st.isBuilt()]
    r = pure.apply(w.api, st, q)
    # what has not learned anything raises one way or another
    return r if x['patterns'] and not x.get('unlearned') or r[0] == 'ok' else ['raises']


def pattern(p):
    r = lib.snap(p)
    r['events'] = sorted(r['events'], key=lib.digest)
    return r


def run(s, o):
    disk = {}       # file: (style, format)
    with mkworld(s) as w:
        w.fs.mkdirs('/sim/home')
        slots = {}  # slot: [style object, style number, came from JSON, how]
        for op in s['ops']:
            do = op['do']
            n = op['style'] % len(s['styles'])
            x = s['styles'][n]
            o.steps += 1
            f = '/sim/home/f%d' % op['file']
            if do == 'learn':
                slots[op['slot']] = [fresh(w, x), n, False, 'learned', 0]
            elif do in ('save', 'crash'):
                if op['slot'] not in slots:
                    continue
                st, n, j, how, pos = slots[op['slot']]
                x = s['styles'][n]
                if do == 'crash':
                    # dies while saving to a file of its own
                    c = ('crash', o.steps)
                    w.fs.begin(c)
                    w.fs.faults[(c, 'write', 0)] = {'kind': 'crash', 'arg': int(op['at'] * 100)}
                    try:
                        st.saveToJSON('/sim/home/other') if op['fmt'] == 'json' else st.saveToPickle('/sim/home/other')
                    except SimCrash:
                        o.fired({'crash': 1})
                    w.fs.faults = {}
                    w.fs.end()
                    w.boot()
                    slots = {}
                    continue
                st.saveToJSON(f) if op['fmt'] == 'json' else st.saveToPickle(f)
                disk[f] = (n, op['fmt'], j or op['fmt'] == 'json', how, pos if op['fmt'] == 'pickle' else 0)
            elif do == 'load':
                if f not in disk:
                    continue
                n, fmt, j, how, pos = disk[f]
                x = s['styles'][n]
                old = slots.get(op['slot'])
                st = blank(w, x, fmt, op['file'])
                if op['into'] == 'used' and old and s['styles'][old[1]]['kind'] == x['kind'] and \
                        (x['kind'] == 'markov' or fmt == 'pickle' or (s['styles'][old[1]]['ordering'] == x['ordering'] != 'increasing')):
                    st = old[0]
                st.loadFromJSON(f) if fmt == 'json' else st.loadFromPickle(f)
                slots[op['slot']] = [st, n, j, how + '>' + fmt, pos]
                o.probe('loads')
            elif do == 'badload':
                if f not in disk or op['slot'] not in slots:
                    continue
                st, n = slots[op['slot']][:2]
                if s['styles'][n]['kind'] != s['styles'][disk[f][0]]['kind']:
                    continue
                c = ('bad', o.steps)
                w.fs.begin(c)
                w.fs.faults[(c, 'read', 0)] = {'kind': 'eio'}
                try:
                    st.loadFromJSON(f) if disk[f][1] == 'json' else st.loadFromPickle(f)
                    o.bad('silent', 'loading returned although reading failed')
                    return
                except (IOError, OSError):
                    o.fired({'eio': 1})
                except Exception:
                    o.fired({'eio': 1})
                w.fs.faults = {}
                w.fs.end()
            elif do == 'restart':
                w.boot()
                slots = {}
            elif do == 'ask':
                if op['slot'] not in slots:
                    continue
                st, n, j, how, pos = slots[op['slot']]
                x = s['styles'][n]
                ref = fresh(w, x)
                if x['kind'] == 'db' and x['ordering'] == 'increasing':
                    for _ in range(pos):
                        ref.generatePattern()
                    slots[op['slot']][4] += count(x, op['q'][0], pos)
                    if pos and '>' in how:
                        o.probe('played on')
                for q in op['q'][:1] if x['kind'] == 'db' else op['q']:
                    if 'n' in q['a'] and x['kind'] == 'markov':
                        q['a']['n'] %= x['steps']
                    want = ask(w, ref, x, q, j, pos)
                    got = ask(w, st, x, q, j, pos) if not j or x['kind'] != 'db' else ask_loaded(w, st, x, q, pos)
                    o.note(q['k'], want, got)
                    if '>' in how:
                        o.nontrivial = True
                        o.sigs.append(mix(how, x['kind']))
                    d = lib.differ(want, got)
                    if d:
                        o.bad('other style', '%s of a %s style that was %s gives something else than of a freshly learned one: %s' % (
                            q['k'], x['kind'], how, '; '.join(d)))
                        return


def ask_loaded(w, st, x, q, pos):
    r = []
    for k in range(count(x, q, pos)):
        p = st.generatePattern(q['a']['seed'] + k)
        y = ops.json_loaded(p)
        del y['origin']
        r.append(y)
    return ['ok', r, st.isBuilt()]
