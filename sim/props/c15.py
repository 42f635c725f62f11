# -*- coding: utf-8 -*-
"""C15: a seed decides what a style generates: again, later, beside other random draws, in other threads and in other processes."""
from __future__ import absolute_import, division, print_function

import random

import conc
import lib
import ops
from props import c14
from props.history import genfs, mkworld
from prng import mix
from sched import Interrupter
from simfs import PY3

RUNS = {'quick': 5500, 'thorough': 120000}
JRUNS = {'quick': 60, 'thorough': 2500}
RERUN = {'quick': 1000, 'thorough': 12000}
DETERMINISM_IS_THE_PROPERTY = True
RULE = ('a run is a history of seeded generations from a Markov style or a random DatabaseStyle, with draws from and seeding of the global generator, unseeded and '
        'cancelled generations, other styles, edits of what was generated or learned from and restarts (learning again) in between, then two or three threads generating and '
        'drawing at once; each result is compared with the first for that seed, and a sample of the runs with another process with another hash seed; '
        'non-trivial: one seed was used twice with something random in between; distinct: scenario differs')
MEASURE = 'what happened between two generations with the same seed; sequences of switches'
REAL = ['gsapi.gsstyles', 'gsapi.gspattern', 'random', 'real threads, one at a time', 'the hash seed of the interpreter']
STUB = ['entropy of unseeded generators: seeded per run and process', 'thread scheduler', 'cancellation at a source line of gsapi']
ASSUMPTIONS = ['the same interpreter (Python 2 and 3 draw differently from one seed)', 'the style is learned from the same patterns in the same order']


def gen(r, tier, i):
    s = {'seed': r.below(1 << 30), 'fs': genfs(r), 'ops': []}
    s['kind'] = r.weighted([(3, 'markov'), (1, 'db')])
    if s['kind'] == 'markov':
        steps = r.choice([4, 8, 8, 16])
        s['order'] = min(r.choice([1, 1, 2, 3]), steps - 1)
        s['nsteps'], s['loop'] = steps, r.choice([4, 2, 8])
    else:
        steps, s['loop'] = 4, 4
    s['patterns'] = c14.gpats(r, steps, s['loop'], r.rint(2, 6) if r.chance(0.96) else r.rint(8, 20))
    s['other'] = c14.gpats(r, 4, 4, 2)
    s['seeds'] = [r.choice([0, 1, 2, 17, -3, 0.5, 1 << 40, r.below(1 << 30), r.below(1000), 'a seed']) for _ in range(r.rint(1, 3))]
    for _ in range(r.rint(2, 9)):
        do = r.weighted([(8, 'gen'), (2, 'draw'), (2, 'reseed'), (2, 'unseeded'), (1, 'cancelgen'), (2, 'other'), (1, 'edit'), (1, 'editlearned'), (2, 'restart'), (1, 'reload'),
                         (1, 'relearn'), (1, 'rngstate')])
        s['ops'].append({'do': do, 'n': r.below(3), 'k': r.below(1 << 30), 'at': r.float()})
    if r.chance(0.5):
        n = r.choice([2, 2, 3])
        s['threads'] = [{'ops': [{'do': r.weighted([(5, 'gen'), (2, 'draw'), (2, 'reseed'), (2, 'unseeded'), (1, 'other')]), 'n': r.below(3), 'k': r.below(1 << 30)}
                                 for _ in range(r.rint(1, 4))]} for _ in range(n)]
        s['switches'] = conc.gswitches(r, n)
        s['shared'] = r.chance(0.5)
    return s


def mk(w, s, given=None):
    api = w.api
    pats = [lib.build(api, p) for p in s['patterns']]
    if s['kind'] == 'markov':
        st = api.gsstyles.MarkovStyle(order=s['order'], numSteps=s['nsteps'], loopDuration=s['loop'])
    else:
        st = api.gsstyles.DatabaseStyle('random')
    learn(st, pats, given)
    return st


def learn(st, pats, given):
    st.generateStyle(pats)
    if given is not None:
        given[:] = pats


def generate(st, seed):
    try:
        return ['ok', lib.snap(st.generatePattern(seed))]
    except Exception as e:
        if type(e).__name__ in ('Stuck', 'Hang'):
            raise
        return ['raises', type(e).__name__, str(e)[:60] if 'start hypothesis' in str(e) else '']


def glob():
    return lib.digest(repr(random.getstate()))


def other(w, s, k):
    st = w.api.gsstyles.MarkovStyle(order=1, numSteps=4, loopDuration=4)
    st.generateStyle([lib.build(w.api, p) for p in s['other']])
    return generate(st, k)


def noise(w, s, st, op):
    """Something that has to do with random numbers."""
    do, k = op['do'], op['k']
    if do == 'draw':
        random.choice([random.random, lambda: random.randint(0, 9), lambda: random.shuffle([1, 2, 3]), lambda: random.gauss(0, 1)])()
    elif do == 'reseed':
        random.seed(k)
    elif do == 'unseeded':
        generate(st, None)
    elif do == 'other':
        other(w, s, k)


def run(s, o):
    seeds = s['seeds']
    with mkworld(s) as w:
        given = []
        st = mk(w, s, given)
        first = {}
        between = []
        edited = False
        for op in s['ops']:
            do = op['do']
            if do == 'gen' or do == 'rngstate':
                i = op['n'] % len(seeds)
                g = glob()
                x = generate(st, seeds[i])
                o.steps += 1
                if glob() != g:
                    o.bad('global generator', 'generating with a seed changed the state of the global random generator')
                    return
                if i in first:
                    d = lib.differ(first[i], x)
                    o.sigs.append(mix(s['kind'], ','.join(between)))
                    if between:
                        o.nontrivial = True
                    if d:
                        o.bad('not reproducible', 'seed %r gives another pattern after %s: %s' % (seeds[i], ', '.join(between) or 'nothing', '; '.join(d)))
                        return
                else:
                    first[i] = x
                    o.note(i, x)
                continue
            between.append(do)
            if do == 'restart':
                w.boot()
                st = mk(w, s, given)
            elif do == 'relearn':
                learn(st, [lib.build(w.api, p) for p in s['patterns']], given)
            elif do == 'reload':
                w.fs.mkdirs('/sim')
                st.saveToPickle('/sim/st')
                st = (w.api.gsstyles.MarkovStyle() if s['kind'] == 'markov' else w.api.gsstyles.DatabaseStyle('random'))
                st.loadFromPickle('/sim/st')
            elif do == 'edit':
                # of a pattern that the style made, or learned
                p = None
                try:
                    p = st.generatePattern(seeds[0])
                except Exception:
                    pass
                for q in [p] if p is not None else []:
                    q.transpose(3)
                    q.timeStretch(2)
                    del q.events[:2]
            elif do == 'editlearned':
                for q in given[:1 + op['n']]:
                    q.transpose(3)
                    q.timeStretch(2)
                    del q.events[:2]
            elif do == 'cancelgen':
                it = Interrupter()
                it(generate, st, op['k'])
                it = Interrupter(at=1 + int(op['at'] * it.n))
                try:
                    it(generate, st, op['k'])
                except KeyboardInterrupt:
                    o.fired({'cancelled': 1})
            else:
                noise(w, s, st, op)
                o.fired({'random numbers drawn or seeded by others': 1})
        for i in range(len(seeds)):
            if i not in first:
                first[i] = generate(st, seeds[i])
    if not s.get('threads'):
        return
    n = len(s['threads'])
    steps = 0
    with mkworld(s) as w:
        for k in (1, 2):        # alone first, to know how long they are
            st = mk(w, s)
            sts = [st if s['shared'] else mk(w, s) for _ in range(n)]
            s['total'] = steps

            def fn(t):
                out = []
                for op in s['threads'][t]['ops']:
                    if op['do'] == 'gen':
                        out.append([op['n'] % len(seeds), generate(sts[t], seeds[op['n'] % len(seeds)])])
                    else:
                        noise(w, s, sts[t], op)
                return out
            if k == 1:
                for t in range(n):
                    steps += conc.threads(w.fs, [lambda t=t: fn(t)], [], 1).step
                continue
            r = conc.threads(w.fs, [(lambda t=t: fn(t)) for t in range(n)], s['switches'], steps)
            o.fired({'thread switch': r.nswitch})
            o.steps += r.step
            o.sigs.append(r.sig)
            for t in range(n):
                if r.out[t][0] != 'ok':
                    o.bad('raises', 'a generating thread raises %s' % r.out[t][1:])
                    return
                for i, x in r.out[t][1]:
                    o.nontrivial = True
                    d = lib.differ(first[i], x)
                    if d:
                        o.bad('not reproducible', 'seed %r gives another pattern while other threads generate and draw: %s' % (seeds[i], '; '.join(d)))
                        return
