# -*- coding: utf-8 -*-
"""C14: what a Markov style generates was learned, for every sequence of random numbers and after learning again or half."""
from __future__ import absolute_import, division, print_function

import json

import lib
import markov
import ops
import pure
from env import World
from prng import mix
from sched import Interrupter
from simfs import PY3

RUNS = {'quick': 4500, 'thorough': 200000}
JRUNS = {'quick': 80, 'thorough': 3000}
RULE = ('a run is a history on one Markov style: learning a set of patterns (again), learning that is cancelled, generating with seeds, '
        'without, or with scripted random numbers, and looking at its tables; every pattern is checked against an independent learner; '
        'non-trivial: at least one pattern was generated from a style with a choice somewhere; distinct: scenario differs')
MEASURE = 'order x steps x number of patterns x kind of random numbers x generated sequence'
REAL = ['gsapi.gsstyles', 'gsapi.gspattern']
STUB = ['random numbers: seeded per run, or a script (also of extreme values)', 'cancellation: an exception raised at a source line of gsapi']
ASSUMPTIONS = ['durations are whole numbers of steps; onsets are less than 0.4 steps off the grid; order below the number of steps',
               'frequencies are compared with bounds that chance exceeds less than once in 10^10']

TAGS = ['Kick', 'Snare', 'Chh', 'silence', ['t', 'a', 'b'], ['t', 'Kick'], 'K', ['c', 'C', 'maj'], 'silence of wind', ['t', 'silence', 'a']]


def gpats(r, steps, loop, n):
    size = loop / float(steps)
    tags = r.sample(TAGS, r.rint(1, 4))
    off = r.chance(0.3)
    pats = []
    dens = r.choice([0.15, 0.35, 0.6])
    for k in range(n):
        d = r.weighted([(6, steps), (1, 2 * steps), (1, max(1, steps // 2)), (1, r.rint(max(1, steps // 2), steps + 3))])
        ev = []
        for st in range(d + (1 if r.chance(0.2) else 0)):
            for t in tags:
                if r.chance(dens):
                    # float noise only as far as the step is beyond doubt
                    x = st + ((r.float() - 0.5) * 0.8 if off and st else 0)
                    ev.append([x * size, r.choice([size, size * 3, size / 2.0, size * 0.9]), r.rint(30, 90), r.rint(1, 127), t])
        if pats and r.chance(0.3):
            # a variation of the one before, so that pasts meet
            ev = [e for e in pats[-1]['events'] if r.chance(0.8)] + ev[:1]
            d = int(round(pats[-1]['duration'] / size))
            ev = [e for e in ev if e[0] < (d + 1) * size]
        if r.chance(0.3):
            ev = r.shuffled(ev)
        pats.append({'name': 'p%d' % k, 'duration': d * size, 'events': ev})
    return pats


def gen(r, tier, i):
    steps = r.choice([4, 4, 8, 8, 16, 5, 3, 32]) if r.chance(0.98) else 64
    order = min(r.choice([1, 1, 2, 2, 3, 4]), steps - 1)
    # steps whose length is exact
    loop = r.choice([4, 4, 2, 8, 1, 16]) if steps not in (3, 5) else steps * r.choice([1, 2, 0.5, 0.25])
    s = {'seed': r.below(1 << 30), 'order': order, 'nsteps': steps, 'loop': loop, 'ops': []}
    if r.chance(0.25):
        s['everything'] = True      # every draw of every generator from the script first
        s['script'] = [r.choice([0.0, 0.999999999999, 0.5, r.float(), r.float()]) for _ in range(r.choice([2, 10, 60, 200]))]
    n = r.rint(1, 4)
    if r.chance(0.08):
        # many patterns, of few different kinds: some transitions are rare
        n = r.choice([11, 17, 30, 60])
    for k in range(r.rint(1, 3)):
        if k and r.chance(0.5):
            s['ops'].append({'do': 'cancel', 'patterns': gpats(r, steps, loop, r.rint(1, 4)), 'at': r.float()})
        s['ops'].append({'do': 'learn', 'patterns': gpats(r, steps, loop, min(n, 4))})
        if n > 4:
            l = s['ops'][-1]['patterns']
            del l[4:]
            for q in range(n - len(l)):
                l.append(dict(l[0 if r.chance(0.9) else r.below(len(l))], name='m%d' % q))
        if r.chance(0.15):
            # one object more than once in the list
            s['ops'][-1]['again'] = [r.below(60) for _ in range(r.rint(1, 3))]
        if k and r.chance(0.5):
            # the list of the time before, or its cancelled use, with other contents
            s['ops'][-1]['same'] = r.choice(['list', 'list', 'build', 'patterns'])
        for _ in range(r.rint(1, 4)):
            x = r.weighted([(5, 'seed'), (2, 'none'), (2, 'look'), (1 if 'script' not in s else 0, 'many'), (1, 'cancelgen')])
            op = {'do': x, 'seed': r.below(1 << 30) if r.chance(0.8) else r.choice([0, 1, -5, 0.5])}
            if x == 'cancelgen':
                op['at'] = r.float()
            if x == 'many':
                op['n'] = r.choice([60, 150, 300 if steps < 9 else 100])
            s['ops'].append(op)
    return s


def run(s, o):
    with World(s['seed']) as w:
        if 'script' in s:
            w.boot(s['script'], True)
        api = w.api
        order, n, loop = s['order'], s['nsteps'], s['loop']
        st = api.gsstyles.MarkovStyle() if [order, n, loop] == [2, 16, 4] else api.gsstyles.MarkovStyle(order=order, numSteps=n, loopDuration=loop)
        table = mine = None
        learned = False
        for op in s['ops']:
            do = op['do']
            if do in ('learn', 'cancel'):
                pats = [lib.build(api, p) for p in op['patterns']]
                data = list(op['patterns'])
                same = op.get('same')
                if same and mine is not None:
                    if same == 'patterns':
                        # the pattern objects are the same, their contents are not
                        for k in range(min(len(mine), len(pats))):
                            mine[k].events, mine[k].duration = pats[k].events, pats[k].duration
                            pats[k] = mine[k]
                    mine[:] = pats
                    pats = mine
                for k in op.get('again', []):
                    data.append(data[k % len(data)])
                    pats.append(pats[k % len(pats)])
                mine = pats
                if do == 'cancel':
                    it = Interrupter()
                    it(api.gsstyles.MarkovStyle(order=order, numSteps=n, loopDuration=loop).generateStyle, [p.copy() for p in pats])
                    it = Interrupter(at=1 + int(op['at'] * it.n))
                    try:
                        it(st.generateStyle, pats)
                    except KeyboardInterrupt:
                        pass
                    o.fired({'cancelled': 1})
                    table = None
                    learned = False
                    continue
                if same == 'build' and learned:
                    # what was learned from is used again
                    st.buildStyle()
                else:
                    st.generateStyle(pats)
                learned = True
                table = markov.learn(data, order, n, loop, api)
                if not look(st, table, n, o):
                    return
                continue
            if table is None:
                continue
            choice = any(len(d) > 1 for t in table for d in t.values()) or any(len(markov.outs(table, k)) > 1 for k in range(order))
            if do == 'look':
                if not look(st, table, n, o):
                    return
            elif do == 'cancelgen':
                it = Interrupter()
                try:
                    it(api.gsstyles.MarkovStyle.generatePattern, st, op['seed'])
                except Exception:
                    pass
                it = Interrupter(at=1 + int(op['at'] * it.n))
                try:
                    it(st.generatePattern, op['seed'])
                except (KeyboardInterrupt, Exception):
                    pass
                o.fired({'cancelled': 1})
            elif do == 'many':
                counts = {}
                none = 0
                for k in range(op['n']):
                    got = one(st, mix(repr(op['seed']), k) & 0x7fffffff, table, s, o)
                    if got is None:
                        return
                    if got != 'none':
                        count(table, order, got, counts)
                    else:
                        none += 1
                q = max(markov.nostart(table, order), 1e-12)
                if none > q * op['n'] and markov.unlikely(none, op['n'], q):
                    o.bad('no start', 'of %d generations %d found no beginning, though that has a probability of %.2g' % (op['n'], none, q))
                    return
                for (k, past), d in counts.items():
                    total = sum(d.values())
                    for e, p in table[k][past].items():
                        if markov.unlikely(d.get(e, 0), total, p):
                            o.bad('frequency', 'at step %d a continuation learned with probability %.3f was generated %d times of %d' % (
                                k, p, d.get(e, 0), total))
                            return
                o.probe('frequencies', len(counts))
            else:
                got = one(st, op['seed'] if do == 'seed' else None, table, s, o)
                if got is None:
                    return
                o.nontrivial = o.nontrivial or choice
        o.steps += env_draws()


def env_draws():
    import env
    return env.ENTROPY.draws


def one(st, seed, table, s, o):
    """Generates and checks one pattern; 'none' if the style may say that it finds no start."""
    try:
        p = st.generatePattern(seed)
    except Exception as e:
        if type(e) is Exception and 'start hypothesis' in str(e) and any(len(markov.outs(table, k)) > 1 for k in range(s['order'])):
            o.probe('no start found')
            o.note('no start')
            return 'none'
        import sys
        o.bad('raises', 'generating (order %d, %d steps) raises %s: %s' % (s['order'], s['nsteps'], type(e).__name__, e))
        return None
    o.steps += 1
    got = markov.read(p, s['nsteps'], s['loop'])
    if not isinstance(got, list):
        o.bad('shape', 'the generated pattern has %s' % got)
        return None
    x = lib.digest([sorted(g) for g in got])
    o.note(x)
    o.sigs.append(mix(s['order'], s['nsteps'], x))
    k = markov.possible(table, s['order'], got)
    if k is not None:
        o.bad('not learned', 'order %d: what is generated at step %d was never learned after what comes before: %s' % (
            s['order'], k, [[lib.short(pure.canon(e.tag)) for e in p.events if abs(e.startTime * s['nsteps'] / float(s['loop']) - j) < 0.5]
                            for j in range(max(0, k - s['order']), k + 1)]))
        return None
    return got


def count(table, order, got, counts):
    """Transitions of one generated sequence, where nothing hidden is in doubt."""
    n = len(table)
    full = []
    for k in range(n):
        c = [e for e in markov.outs(table, k) if markov.visible(e) == got[k]]
        full.append(c[0] if len(c) == 1 else None)
    for k in range(order, n):
        past = tuple(full[k - order:k])
        if None in past or past not in table[k]:
            continue
        nexts = table[k][past]
        if len(set(markov.visible(e) for e in nexts)) < len(nexts):
            continue
        d = counts.setdefault((k, past), {})
        for e in nexts:
            if markov.visible(e) == got[k]:
                d[e] = d.get(e, 0) + 1


def words(x, short):
    """The name of a state: of a part alone that part's, if it is to be short."""
    def parts(t):
        if not isinstance(t, tuple):
            return t
        t = tuple(parts(y) for y in t)
        return t[0] if short and len(t) == 1 else t
    return str(parts(x))


def st_of(x):
    return frozenset(markov.key(t) for t in x)


def look(st, table, n, o):
    """The tables as the style shows them."""
    m = st.markovChain
    if st.isBuilt() is not True:
        o.bad('tables', 'isBuilt gives %r after learning' % st.isBuilt())
        return False
    for k in range(n):
        ins = [tuple(st_of(x) for x in p) for p in m.getPossibleInStatesAtStep(k)]
        os_ = [st_of(x) for x in m.getPossibleOutStatesAtStep(k)]
        x, rows, cols = m.getMatrixAtStep(k)
        got = {}
        for i, p in enumerate(rows):
            for j, e in enumerate(cols):
                if x[i][j]:
                    got.setdefault(tuple(st_of(y) for y in p), {})[st_of(e)] = x[i][j]
        if set(ins) != set(table[k]) or len(ins) != len(table[k]):
            o.bad('tables', 'step %d: %d pasts are known instead of %d, %d of them right' % (k, len(ins), len(table[k]), len(set(ins) & set(table[k]))))
            return False
        if set(os_) != markov.outs(table, k) or len(os_) != len(markov.outs(table, k)):
            o.bad('tables', 'step %d: other possible states' % k)
            return False
        if set(got) != set(table[k]) or any(set(got[p]) != set(table[k][p]) or any(abs(got[p][e] - table[k][p][e]) > 1e-9 for e in got[p]) for p in got):
            o.bad('tables', 'step %d: other transitions or probabilities than the patterns have' % k)
            return False
    # the same in words
    for short in (True, False):
        lists = m.getStringTransitionTable(reduceTuples=short, jsonStyle=False)
        texts = m.getStringTransitionTable(reduceTuples=short) if not short else m.getStringTransitionTable()
        for k in range(n):
            x, rows, cols = m.getMatrixAtStep(k)
            rn, cn = [words(p, short) for p in rows], [words(e, short) for e in cols]
            if len(set(rn)) < len(rn) or len(set(cn)) < len(cn):
                continue    # two states with one name
            want = dict((rn[i], dict((cn[j], x[i][j]) for j in range(len(cols)) if x[i][j])) for i in range(len(rows)))
            for what, got in (('table', lists[k]), ('text', json.loads(texts[k]))):
                if not isinstance(got, dict) or set(got) != set(want) or any(
                        set(got[p]) != set(want[p]) or any(abs(got[p][e] - want[p][e]) > 1e-9 for e in want[p]) for p in want):
                    o.bad('tables', 'step %d: the %s in words (%s) is %s instead of %s' % (k, what, 'short' if short else 'in full', lib.short(got), lib.short(want)))
                    return False
        if len(lists) != n or len(texts) != n:
            o.bad('tables', '%d and %d steps in words' % (len(lists), len(texts)))
            return False
    # several steps in one matrix
    steps = [0, n - 1, 0]
    rows, cols = [], []
    for k in steps:
        rows += [x for x in m.getPossibleInStatesAtStep(k) if x not in rows]
        cols += [x for x in m.getPossibleOutStatesAtStep(k) if x not in cols]
    x = [[0] * len(cols) for _ in rows]
    for k in steps:
        m.getMatrixAtStep(k, rows, cols, x)
    for i, p in enumerate(rows):
        for j, e in enumerate(cols):
            want = sum(table[k].get(tuple(st_of(y) for y in p), {}).get(st_of(e), 0) for k in steps)
            if abs(x[i][j] - want) > 1e-9:
                o.bad('tables', 'a matrix of steps %s has %r where the probabilities add up to %r' % (steps, x[i][j], want))
                return False
    return True
