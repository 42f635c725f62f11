# -*- coding: utf-8 -*-
"""C13: copies and patterns made from others; editing one, cancelled or not, alone or while another is edited, changes only that one."""
from __future__ import absolute_import, division, print_function

import copy
import pickle

import conc
import lib
import ops
import pure
from props.history import genfs, mkworld
from prng import mix
from sched import Interrupter

RUNS = {'quick': 6000, 'thorough': 160000}
JRUNS = {'quick': 60, 'thorough': 1500}
RULE = ('a run is a history over a growing pool of patterns made from each other (copies, filters, slices, splits, cuts, round trips, '
        'generation): each step makes one or edits one, some edits are cancelled in the middle, and at the end two or three are edited at once '
        'by threads; after each step all others are compared with what they were; '
        'non-trivial: at least one member that was derived from or led to another was edited; distinct: scenario differs')
MEASURE = 'way of deriving x edit of the one or the other (or line of cancellation); sequences of switches'
REAL = ['gsapi.gspattern', 'gsapi.gsstyles', 'gsapi.gsio', 'copy', 'pickle', 'json', 'real threads, one at a time']
STUB = ['thread scheduler', 'disk: in-memory file system', 'cancellation: an exception raised at a source line of gsapi']
ASSUMPTIONS = ['makeCopy=False, which shares events by contract, is left out']

DERIVE = {
    'copy': lambda api, p, a: [p.copy()],
    'deepcopy': lambda api, p, a: [copy.deepcopy(p)],
    'bare': lambda api, p, a: [p.copyWithoutEvents()],
    'filled': lambda api, p, a: [p.getFilledWithSilences(a['max'], a['per'])],
    'filled2': lambda api, p, a: [p.getFilledWithSilences()],
    'slice': lambda api, p, a: [p.patternFromTimeSlice(a['t'], a['len'], a['trim'])],
    'withtags': lambda api, p, a: [p.getPatternWithTags(pure.tag(api, a), a['exact'])],
    'withlist': lambda api, p, a: [p.getPatternWithTags([pure.tag(api, a), 'Kick'], False)],
    'withpitch': lambda api, p, a: [p.getPatternWithPitch(a['pitch'])],
    'without': lambda api, p, a: [p.getPatternWithoutTags(pure.tag(api, a), a['exact'])],
    'split': lambda api, p, a: p.splitInEqualLengthPatterns(a['len'], supressEmptyPattern=a['sup']),
    'splitvp': lambda api, p, a: p.splitInEqualLengthPatterns(a['len'], viewpointName=sorted(p.viewpoints)[0]) if p.viewpoints else [],
    'evcopy': lambda api, p, a: [api.Pattern(events=[e.copy() for e in p.events])],
    'cut': lambda api, p, a: [api.Pattern(events=sum([e.cutInSteps(a['step']) for e in p.events], []))],
    'learn': lambda api, p, a: [pure.learn(api, [p], a).generatePattern(a['seed'])],
    'database': lambda api, p, a: dbase(api, p, a['idx']),
    'dict': lambda api, p, a: [api.Pattern().fromJSONDict(p.toJSONDict(a['idx']))],
    'json': lambda api, p, a: [api.gsio.fromJSONFile(api.gsio.toJSONFile(p, '/sim/c13', useTagIndexing=a['idx']) or '/sim/c13/%s.json' % p.name)],
    'pickle': lambda api, p, a: [pickle.loads(pickle.dumps(p, 2))],
    'new': lambda api, p, a: [api.Pattern()],
    'newargs': lambda api, p, a: [api.Pattern(8, [], 99, [3, 4], 'C')],
}


def dbase(api, p, random):
    st = api.gsstyles.DatabaseStyle('random' if random else 'indexed')
    st.generateStyle([p])
    return [st.generatePattern(1), st.patternList[0], st.generatePattern(2)]


LIKE = {'deepcopy': 'copy', 'evcopy': 'copy', 'dict': 'jsondict', 'pickle': 'copy', 'new': 'copy', 'newargs': 'copy'}


def gen(r, tier, i):
    s = {'seed': r.below(1 << 30), 'fs': genfs(r), 'pattern': pure.gpat(r, 7), 'ops': [], 'listts': r.chance(0.3)}
    if r.chance(0.15):
        # nothing to fill, nothing to cut off
        for i, e in enumerate(s['pattern']['events']):
            e[0], e[1] = i / 2., 0.5
        s['pattern'].pop('vps', None)
        s['pattern'].update(start=0, duration=len(s['pattern']['events']) / 2. or 4)
    n = r.rint(2, 9)
    for k in range(n):
        if k == 0 or r.chance(0.4):
            d = r.choice(sorted(DERIVE))
            like = LIKE.get(d, d)
            op = {'do': 'derive', 'k': d, 'a': {}}
            if like in pure.READ:
                op['a'] = pure.gop(r, s['pattern'], [like])['a']
            op['a'].setdefault('idx', r.chance(0.5))
        else:
            op = {'do': 'edit', 'op': gedit(r, s)}
            if r.chance(0.25):
                op['cancel'] = r.float()
        op['of'] = r.below(100)
        if k and r.chance(0.12):
            # the same once more: another part of its own
            op = dict([x for x in s['ops'] if x['do'] == 'derive'][0])
        s['ops'].append(op)
    if r.chance(0.35):
        nt = r.choice([2, 2, 3])
        s['threads'] = [{'ops': [gedit(r, s) for _ in range(r.rint(1, 3))]} for _ in range(nt)]
        s['from'] = r.below(100)
        s['switches'] = conc.gswitches(r, nt)
    return s


def gedit(r, s):
    if r.chance(0.15):
        return {'k': 'inplace', 'a': {'what': r.choice(['ts', 'del', 'append', 'vp', 'origin'])}}
    return pure.gop(r, s['pattern'], pure.EDIT)


def edit(api, p, op):
    if op['k'] != 'inplace':
        return pure.apply(api, p, op)
    w = op['a']['what']
    if w == 'ts' and isinstance(p.timeSignature, list):
        p.timeSignature[0] = 11
    elif w == 'del':
        del p.events[:1]
    elif w == 'append':
        p.events.append(api.Event(0.5, 0.5, 3, 3, 'x'))
    elif w == 'vp':
        p.viewpoints['new one'] = api.Pattern(3, name='new one')
    elif w == 'origin':
        for k in sorted(p.viewpoints):
            for e in p.viewpoints[k].events:
                if e.originPattern is not None:
                    e.originPattern.name = 'renamed'
    return ['ok']


def mk(w, s):
    p = lib.build(w.api, s['pattern'])
    if s['listts']:
        p.timeSignature = list(p.timeSignature)
    return p


def snap(p):
    return lib.snap(p, True)


def derive(w, pool, op):
    """What the step makes; what its code raises makes nothing."""
    src = pool[op['of'] % len(pool)]
    try:
        return [p for p in DERIVE[op['k']](w.api, src, op['a']) if p is not None][:4]
    except Exception as e:
        if type(e).__name__ in ('Stuck', 'Hang'):
            raise
        return []


def history(w, s, o=None):
    pool = [mk(w, s)]
    how = ['']
    snaps = [snap(pool[0])]
    for k, op in enumerate(s['ops']):
        i = op['of'] % len(pool)
        if op['do'] == 'derive':
            new = derive(w, pool, op)
            words = 'making %s of' % op['k']
            for p in new:
                if not any(p is q for q in pool):
                    pool.append(p)
                    how.append(op['k'])
                    snaps.append(snap(p))
                elif o is not None:
                    o.bad('same object', '%s gives the pattern itself' % op['k'])
                    return pool
            skip = -1
        else:
            words = 'editing (%s)' % op['op']['k']
            if 'cancel' in op:
                n = Interrupter()
                n(edit, w.api, pool[i].copy(), op['op'])
                it = Interrupter(at=1 + int(op['cancel'] * max(1, n.n)))
                try:
                    it(edit, w.api, pool[i], op['op'])
                except KeyboardInterrupt:
                    words += ' cancelled at %s' % it.where
                    if o is not None:
                        o.fired({'cancelled': 1})
            else:
                edit(w.api, pool[i], op['op'])
            skip = i
            snaps[i] = snap(pool[i])
            if o is not None and len(pool) > 1:
                o.nontrivial = True
        if o is not None:
            o.steps += 1
            o.note(words, lib.digest(snaps))
            for j, p in enumerate(pool):
                d = lib.differ(snaps[j], snap(p)) if j != skip else []
                if d:
                    o.bad('changed', '%s one pattern (%s) changed another (%s): %s' % (words, how[i] or 'the first', how[j] or 'the first', '; '.join(d)))
                    return pool
                o.sigs.append(mix(how[j], words))
    return pool


def world(s, which, o):
    with mkworld(s) as w:
        pool = history(w, s)
        n = len(s['threads'])
        f = s['from']
        mine = [pool[(f + t) % len(pool)] if t < len(pool) else None for t in range(n)]
        fns = []
        for t in range(n):
            if t in which:
                fns.append(lambda t=t: [lib.short(edit(w.api, mine[t], op)[0]) for op in s['threads'][t]['ops']] if mine[t] is not None else [])
        r = conc.threads(w.fs, fns, s['switches'] if len(which) > 1 else [], s.get('total', 1))
        r.snaps = [snap(p) for p in pool]
        r.mine = [(f + t) % len(pool) if t < len(pool) else None for t in range(n)]
        return r


def run(s, o):
    with mkworld(s) as w:
        pool = history(w, s, o)
    if o.violations or not s.get('threads'):
        return
    n = len(s['threads'])
    solo = [world(s, [t], o) for t in range(n)]
    s['total'] = sum(r.step for r in solo)
    r = world(s, list(range(n)), o)
    o.steps += r.step
    o.fired({'thread switch': r.nswitch})
    o.sigs.append(r.sig)
    o.note(r.snaps, r.out)
    for j in range(len(r.snaps)):
        t = r.mine.index(j) if j in r.mine else None
        want = solo[t].snaps[j] if t is not None else solo[0].snaps[j]
        d = lib.differ(want, r.snaps[j])
        if d:
            o.bad('changed together', 'threads that each edit one of several patterns (%s): one ends as other than alone: %s' % (
                '; '.join('+'.join(x['k'] for x in y['ops']) for y in s['threads']), '; '.join(d)))
            return
