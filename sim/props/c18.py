# -*- coding: utf-8 -*-
"""C18: bass lines follow the corpus, the kick and the beats that are to be kept, whatever random numbers come."""
from __future__ import absolute_import, division, print_function

import json

import conc
import env
import lib
import ops
from props.history import genfs, mkworld
from prng import mix
from sched import Interrupter

RUNS = {'quick': 8000, 'thorough': 250000}
JRUNS = {'quick': 0, 'thorough': 0}
RULE = ('a run is a history on one bass model: learning (from beats, or from a folder of bass and drum files), normalising, generating freely, under a kick '
        'pattern and as a variation, exporting its tables, with scripted or seeded random numbers, cancelled calls, failing disks, and threads that generate '
        'from it at the same time; everything is checked against an independent count of what was learned; '
        'non-trivial: a bass line was generated from a model with a choice somewhere; distinct: scenario differs')
MEASURE = 'operation x number of states x beats x solutions under the constraint x random numbers'
REAL = ['gsapi.bassmine', 'gsapi.gsio', 'gsapi.midiio', 'gsapi.gsutil', 'gsapi.gspattern', 'numpy', 'json']
STUB = ['disk: in-memory file system (sim/simfs.py)', 'random numbers: numpy\'s generator seeded per run, or a script of (extreme) values for its choices',
        'thread scheduling', 'cancellation at a source line of gsapi']
ASSUMPTIONS = ['CPython only: there is no numpy for Jython', 'onsets are less than a tenth of a beat from a sixteenth of their beat',
               'kick patterns and bass lines to vary have at least two beats; the first beat of a variation stays',
               'frequencies are compared with bounds that chance exceeds less than once in 10^10']

OUTS = ['output/', 'output', '/sim/models/', '/sim/models']


def gids(r, n, few):
    return [r.choice(few) for _ in range(n)]


def gen(r, tier, i):
    s = {'seed': r.below(1 << 30), 'fs': genfs(r), 'ops': [], 'switches': []}
    if r.chance(0.4):
        s['script'] = [r.choice([0.0, 0.9999999999, 0.5, r.float(), r.float()]) for _ in range(r.choice([3, 30, 300]))]
    few = r.sample(list(range(16)), r.rint(1, 5))
    kicks = r.sample(list(range(16)), r.rint(1, 3)) + ([8] if r.chance(0.8) else [])
    for k in range(r.rint(1, 3)):
        how = 'corpus' if not k and r.chance(0.35) else 'learn'
        pairs = []
        for q in range(r.rint(1, 4) if r.chance(0.96) else r.rint(5, 12)):
            n = r.choice([1, 2, 3, 4, 4, 8, 8]) if r.chance(0.97) else r.choice([16, 32, 9, 11, 12])
            pairs.append({'bass': gids(r, n, few), 'kick': gids(r, n if r.chance(0.7) else r.rint(1, 8), kicks), 'name': r.choice(['a', 'b', 'c', 'x1', 'loop', 'l[2]']) + str(q)})
        op = {'do': how, 'files': pairs}
        if how == 'corpus':
            op['order'] = r.below(100)
            op['slash'] = r.choice(['', '', '/'])
            op['more'] = r.sample(['drums/drums_none.mid', 'drums/notes.txt', 'bass/readme', 'drums/drums_a.mid'], r.rint(0, 2))
            op['jitter'] = r.weighted([(5, 0), (1, 1), (1, 2)])
            if r.chance(0.2):
                op['fault'] = [r.choice(['open', 'read']), r.below(3), r.choice(['eio', 'emfile', 'interrupt'])]
        s['ops'].append(op)
        for q in range(r.rint(1, 4)):
            do = r.weighted([(4, 'free'), (4, 'kick'), (3, 'vary'), (2, 'tables'), (1, 'constrain'), (0 if 'script' in s else 0.6, 'many'), (1, 'threads')])
            op = {'do': do, 'beats': r.choice([1, 2, 4, 8, 8, 16, 3]), 'out': r.choice(OUTS), 'kick': gids(r, r.choice([2, 4, 4, 8, 3, 16]), kicks + ([r.below(16)] if r.chance(0.2) else [])),
                  'like': r.choice(['last', 'learned', 'any', 'learned']), 'any': gids(r, r.rint(2, 6), few), 'n': r.below(50), 'jitter': r.weighted([(6, 0), (1, 1), (1, 2)]), 'frac': r.chance(0.2)}
            op['mask'] = [r.choice([1, 1, -1]) for _ in range(16)] if r.chance(0.8) else [-1] * 16
            if r.chance(0.15) and do not in ('threads', 'many'):
                op['cancel'] = r.float()
            if do in ('tables', 'constrain', 'kick', 'free') and r.chance(0.15):
                on = r.choice(['create', 'write', 'close', 'open'])
                op['fault'] = [on, r.choice({'create': ['eio', 'enospc', 'eacces', 'interrupt'], 'open': ['eio', 'eacces', 'emfile'],
                                             'write': ['eio', 'enospc', 'torn', 'interrupt'], 'close': ['eio', 'enospc']}[on])]
            s['ops'].append(op)
    s['switches'] = conc.gswitches(r, 2)
    return s


# ---- what was learned ---------------------------------------------------------------------------
class Count(object):
    def __init__(self):
        self.init, self.trans, self.inter = {}, {}, {}
        self.loops = []

    def learn(self, bass, kick):
        if bass:
            self.init[bass[0]] = self.init.get(bass[0], 0) + 1
        for k in range(len(bass)):
            d = self.trans.setdefault(bass[k], {})
            n = bass[(k + 1) % len(bass)]
            d[n] = d.get(n, 0) + 1
        for a, b in zip(kick, bass):
            d = self.inter.setdefault(a, {})
            d[b] = d.get(b, 0) + 1
        self.loops.append(list(bass))

    def domains(self, kick):
        out = []
        for k in kick:
            d = self.inter.get(k)
            if d is None:
                d = self.inter.get(8)
            if d is None:
                return None
            out.append(set(d))
        return out

    def consistent(self, dom):
        """What can be continued to the end."""
        a = [set()] * len(dom)
        a[-1] = dom[-1]
        for b in range(len(dom) - 2, -1, -1):
            a[b] = set(x for x in dom[b] if set(self.trans.get(x, {})) & a[b + 1])
        return a


def share(d, among=None):
    d = dict((k, v) for k, v in d.items() if among is None or k in among)
    t = float(sum(d.values()))
    return dict((k, v / t) for k, v in d.items())


def onsets(ids, jitter=0):
    out = []
    for b, x in enumerate(ids):
        for c in range(4):
            if x >> (3 - c) & 1:
                out.append(b + c * 0.25 + (0.03125 * ((b + c) % 4) if jitter == 1 else -0.03125 * min(c, (b + c) % 4) if jitter else 0))
    return out


def decode(p):
    """The states of a generated bass line, or what is wrong with it."""
    n = p.duration
    if n != int(n):
        return None, 'duration %r' % n
    ids = [0] * int(n)
    prev = -1
    for e in p.events:
        q = e.startTime * 4
        if q != int(q) or not 0 <= q < n * 4 or e.duration != 0.25 or lib.ctag(e.tag) != lib.ctag('bass'):
            return None, 'event %s' % lib.cevent(e)
        if q <= prev:
            return None, 'two events at %r, or not in order' % e.startTime
        prev = q
        ids[int(q) // 4] |= 1 << (3 - int(q) % 4)
    return ids, None


class Choice(object):
    """numpy.random.choice with a script."""

    def __init__(self, script):
        self.script = list(script)
        self.real = env.numpy.random.choice

    def __call__(self, a, size=None, replace=True, p=None):
        if not self.script or size is not None:
            return self.real(a, size, replace, p)
        x = self.script.pop(0)
        a = list(a)
        if not len(a) or p is not None and (len(p) != len(a) or abs(sum(p) - 1) > 1e-6 or min(p) < 0):
            raise ValueError('bad choice')
        p = [1.0 / len(a)] * len(a) if p is None else [float(y) for y in p]
        t = 0
        for v, y in zip(a, p):
            t += y
            if x < t and y > 0:
                return v
        return [v for v, y in zip(a, p) if y > 0][-1]


def run(s, o):
    with mkworld(s) as w:
        w.fs.mkdirs('/sim/cwd/output')
        w.fs.mkdirs('/sim/models')
        real = env.numpy.random.choice
        if s.get('script'):
            env.numpy.random.choice = Choice(s['script'])
        try:
            Run(w, s, o).run()
        finally:
            env.numpy.random.choice = real


class Run(object):
    def __init__(self, w, s, o):
        self.w, self.s, self.o = w, s, o
        self.bm = w.api.bassmine
        self.mm = self.bm.MarkovModel(16)
        self.c = Count()
        self.last = None
        self.learned = False
        self.n = 0

    def run(self):
        for k, op in enumerate(self.s['ops']):
            self.o.steps += 1
            self.k = k
            if op['do'] in ('learn', 'corpus'):
                bad = getattr(self, op['do'])(op)
                if bad is None:
                    self.mm.normalize_model()
                    self.learned = True
                    bad = self.tablesof()
            elif not self.learned:
                continue
            else:
                bad = getattr(self, 'do_' + op['do'])(op) or self.tablesof()
            if bad:
                self.o.bad(*bad)
                return

    # ---- learning
    def learn(self, op):
        for f in op['files']:
            self.mm.add_temporal(list(f['bass']))
            self.mm.add_interlocking(list(f['kick']), list(f['bass']))
            self.c.learn(f['bass'], f['kick'])

    def corpus(self, op):
        w = self.w
        base = '/sim/corpus'
        w.fs.mkdirs(base + '/bass')
        w.fs.mkdirs(base + '/drums')
        files = sorted(op['files'], key=lambda f: f['name'])
        for f in files:
            for what, ids, pitch in (('bass', f['bass'], 45), ('drums', f['kick'], 36)):
                ev = [[t, 0.125, pitch, 90, 'x'] for t in onsets(ids, op['jitter'])]
                if what == 'drums':
                    ev += [[t + 0.25, 0.125, 38, 90, 'x'] for t in range(len(ids))]
                w.fs.put('%s/%s/%s_%s.mid' % (base, what, what, f['name']),
                         ops.encode_midi({'res': 480, 'bpm': 120, 'ts': [4, 4], 'duration': len(ids), 'events': ev}))
        for m in op['more']:
            w.fs.put(base + '/' + m, ops.encode_midi({'res': 480, 'bpm': 120, 'ts': [4, 4], 'duration': 4, 'events': [[0, 1, 36, 90, 'x']]}))
        if 'fault' in op:
            f = op['fault']
            n0 = len(w.fs.ops)
            w.fs.begin(('dry', self.k))
            self.bm.corpus_analysis(base + '/bass' + op['slash'], base + '/drums' + op['slash'])
            w.fs.end()
            places = [n for c, n, kind, p, size in w.fs.ops[n0:] if kind == f[0]]
            if places:
                w.fs.faults = {(('f', self.k), places[f[1] * len(places) // 3]): {'kind': f[2]}}
                w.fs.begin(('f', self.k))
                fired = sum(w.fs.fired.values())
                try:
                    self.bm.corpus_analysis(base + '/bass' + op['slash'], base + '/drums' + op['slash'])
                except (Exception, KeyboardInterrupt):
                    self.o.fired({f[2]: 1})
                else:
                    if sum(w.fs.fired.values()) > fired:
                        return ['failing file skipped', 'the analysis returned although %s failed (%s)' % (f[0], f[2])]
                finally:
                    w.fs.end()
                    w.fs.faults = {}
        w.fs.begin(('c', self.k))
        self.mm, kicks = self.bm.corpus_analysis(base + '/bass' + op['slash'], base + '/drums' + op['slash'])
        w.fs.end()
        self.c = Count()
        for f in files:
            self.c.learn(f['bass'], f['kick'])
        got = sorted([[round(e.startTime, 6) for e in p.events] for p in kicks])
        want = sorted([[round(int(t * 480 + 0.5) / 480.0, 6) for t in onsets(f['kick'], op['jitter'])] for f in files])
        if got != want:
            return ['kick patterns', '%s instead of %s' % (got, want)]

    def tablesof(self):
        """The tables are the shares of what was counted."""
        for name, want, got in (('initial', {0: self.c.init}, [self.mm.get_initial()]), ('temporal', self.c.trans, self.mm.get_temporal()),
                                ('interlocking', self.c.inter, self.mm.get_interlocking())):
            for k in range(len(got)):
                d = share(want[k]) if want.get(k) else {}
                for j in range(16):
                    if abs(float(got[k][j]) - d.get(j, 0)) > 1e-9:
                        return ['table', '%s: %s from %d to %d instead of %s' % (name, got[k][j], k, j, d.get(j, 0))]
        return None

    # ---- calls, with what may happen to them
    def call(self, op, fn):
        """['ok', result], ['raises', ...], or None if it was cancelled."""
        w = self.w
        if 'cancel' in op:
            it = Interrupter()
            try:
                it(fn)
            except Exception:
                pass
            it = Interrupter(at=1 + int(op['cancel'] * it.n))
            try:
                it(fn)
            except KeyboardInterrupt:
                self.o.fired({'cancelled': 1})
            except Exception:
                pass
        if 'fault' in op:
            on, kind = op['fault']
            w.fs.faults = {(('f', self.k), on, 0): {'kind': kind}}
            w.fs.begin(('f', self.k))
            before = sum(w.fs.fired.values())
            try:
                fn()
            except (Exception, KeyboardInterrupt) as e:
                if type(e).__name__ in ('Stuck', 'Hang'):
                    raise
                self.failed = None
            else:
                self.failed = sum(w.fs.fired.values()) > before
            if sum(w.fs.fired.values()) > before:
                self.o.fired({kind: 1})
            w.fs.end()
            w.fs.faults = {}
            if self.failed and op['do'] in ('tables', 'constrain'):
                return ['silent', 'the tables could not be written (%s, %s), and the call returned' % (on, kind)]
        w.fs.begin(('d', self.k))
        try:
            return ['ok', fn()]
        except Exception as e:
            if type(e).__name__ in ('Stuck', 'Hang'):
                raise
            return ['raises', '%s: %s' % (type(e).__name__, e), env and e]
        finally:
            w.fs.end()

    def kick(self, op):
        p = self.w.api.Pattern()
        p.duration = len(op['kick']) - (0.5 if op['frac'] and not op['kick'][-1] & 3 else 0)
        for t in onsets(op['kick'], op['jitter']):
            p.events.append(self.w.api.Event(t, 0.25, 36, 90, 'Kick'))
        return p

    # ---- generating
    def do_free(self, op):
        r = self.call(op, lambda: self.bm.generateBassRhythm(self.mm, beat_length=op['beats']))
        return self.free(op, r)

    def free(self, op, r):
        if r[0] != 'ok':
            return ['raises', 'generating %d beats: %s' % (op['beats'], r[1])]
        ids, bad = decode(r[1])
        if bad:
            return ['not a bass line', bad]
        if len(ids) != op['beats']:
            return ['length', '%d beats instead of %d' % (len(ids), op['beats'])]
        if ids[0] not in self.c.init:
            return ['never learned', 'starts with %d, which no bass line starts with' % ids[0]]
        for a, b in zip(ids, ids[1:]):
            if b not in self.c.trans.get(a, {}):
                return ['never learned', '%d after %d in %s' % (b, a, ids)]
        self.last = ids
        self.reached('free', ids, 0)

    def reached(self, what, ids, sol):
        self.o.nontrivial |= any(len(d) > 1 for d in self.c.trans.values())
        self.o.sigs.append(mix(what, len(self.c.trans), len(ids), sol, 'script' in self.s))
        self.o.note(what, len(ids))

    def do_kick(self, op):
        k = self.kick(op)
        was = lib.snap(k, True)
        r = self.call(op, lambda: self.bm.generateBassRhythm(self.mm, beat_length=op['beats'], target=k))
        if lib.differ(was, lib.snap(k, True)):
            return ['input', 'the kick pattern was changed']
        if not k.events:
            return self.free(op, r)
        return self.constrained(op, r)

    def constrained(self, op, r):
        dom = self.c.domains(op['kick'])
        a = self.c.consistent(dom) if dom else None
        if dom is None or not a[0] & set(self.c.init):
            if r[0] == 'ok':
                return ['no solution', 'a bass line %s for the kick %s, with which no bass line is consistent' % (decode(r[1]), op['kick'])]
            self.o.probe('no solution')
            return None
        if r[0] != 'ok':
            return ['raises', 'kick %s: %s, though there are solutions' % (op['kick'], r[1])]
        ids, bad = decode(r[1])
        if bad:
            return ['not a bass line', bad]
        n = min(op['beats'], len(op['kick']))
        if len(ids) != n:
            return ['length', '%d beats instead of %d' % (len(ids), n)]
        if ids[0] not in self.c.init:
            return ['never learned', 'starts with %d, which no bass line starts with' % ids[0]]
        for b, x in enumerate(ids):
            if x not in a[b]:
                return ['not with this kick', '%d at beat %d over the kick %s' % (x, b, op['kick'])]
            if b and x not in self.c.trans.get(ids[b - 1], {}):
                return ['never learned', '%d after %d in %s' % (x, ids[b - 1], ids)]
        self.last = ids
        self.reached('kick', ids, sum(len(x) for x in a))
        return None

    def do_vary(self, op):
        ids = {'last': self.last, 'learned': self.c.loops[op['n'] % len(self.c.loops)], 'any': op['any']}[op['like']]
        if not ids or len(ids) < 2:
            return None
        ids = ids[:16]
        mask = op['mask'][:len(ids)]
        p = self.w.api.Pattern()
        p.duration = len(ids)
        p.events = [self.w.api.Event(t, 0.25, 36, 110, 'bass') for t in onsets(ids, op['jitter'])]
        was = lib.snap(p, True)
        r = self.call(op, lambda: self.bm.generateBassRhythmVariation(self.mm, p, mask))
        if lib.differ(was, lib.snap(p, True)) or mask != op['mask'][:len(ids)]:
            return ['input', 'the pattern or the mask was changed']
        dom = [set([x]) if not b or mask[b] >= 0 else set(range(16)) for b, x in enumerate(ids)]
        a = self.c.consistent(dom)
        if not a[0]:
            if r[0] == 'ok':
                return ['no solution', 'a variation %s of %s (%s), for which nothing learned fits' % (decode(r[1]), ids, mask)]
            self.o.probe('no variation')
            return None
        if r[0] != 'ok':
            return ['raises', 'varying %s by %s: %s, though there are solutions' % (ids, mask, r[1])]
        got, bad = decode(r[1])
        if bad:
            return ['not a bass line', bad]
        if len(got) != len(ids):
            return ['length', 'a variation of %d beats instead of %d' % (len(got), len(ids))]
        for b, x in enumerate(got):
            if x != ids[b] and (not b or mask[b] >= 0):
                return ['not kept', 'beat %d of %s became %d (%s)' % (b, ids, x, mask)]
            if b and x not in self.c.trans.get(got[b - 1], {}):
                return ['never learned', '%d after %d in %s' % (x, got[b - 1], got)]
        self.last = got
        self.reached('vary', got, sum(len(x) for x in a))
        return None

    # ---- tables
    def near(self, what, patterns, probs, want):
        got = dict(zip(patterns, [float(x) for x in probs]))
        if len(patterns) != len(probs) or sorted(got) != sorted(want) or any(abs(got[x] - want[x]) > 1e-9 for x in want):
            return ['table', '%s: %s instead of %s' % (what, sorted(got.items()), sorted(want.items()))]

    def do_tables(self, op):
        r = self.call(op, lambda: self.bm.MarkovModel.rhythm_model(self.mm, op['out']))
        if r[0] != 'ok':
            return r if r[0] == 'silent' else ['raises', r[1]]
        init, model = r[1]
        bad = self.near('initial', init['initial']['pattern'], init['initial']['prob'], share(self.c.init))
        if sorted(model) != sorted(self.c.trans):
            return ['table', 'states %s instead of %s' % (sorted(model), sorted(self.c.trans))]
        for k in model:
            bad = bad or self.near('after %d' % k, model[k]['pattern'], model[k]['probs'], share(self.c.trans[k]))
        return bad or self.files(op, {'HModel.json': model, 'HModel_init.json': init})

    def do_constrain(self, op):
        k = self.kick(op)
        r = self.call(op, lambda: self.bm.constrainMM(self.mm, k, op['out']))
        if r[0] == 'silent':
            return r
        dom = self.c.domains(op['kick'])
        a = self.c.consistent(dom) if dom else None
        if dom is None or not a[0] & set(self.c.init):
            return ['no solution', 'tables for a kick with which no bass line is consistent'] if r[0] == 'ok' else None
        if r[0] != 'ok':
            return ['raises', 'kick %s: %s, though there are solutions' % (op['kick'], r[1])]
        init, model = r[1]
        now = a[0] & set(self.c.init)
        bad = self.near('initial', init['initial']['pattern'], init['initial']['prob'], share(self.c.init, now))
        for b in range(len(dom) - 1):
            nxt = set()
            for x in sorted(now):
                if bad:
                    return bad
                if x not in model[b]:
                    return ['table', 'nothing for %d at beat %d' % (x, b)]
                bad = self.near('beat %d, after %d' % (b, x), model[b][x]['pattern'], model[b][x]['probs'], share(self.c.trans[x], a[b + 1]))
                nxt |= set(self.c.trans[x]) & a[b + 1]
            now = nxt
        return bad or self.files(op, {'NHModel.json': model, 'Model_init.json': init})

    def files(self, op, want):
        for n in sorted(want):
            f = self.w.fs.norm(op['out'].rstrip('/') + '/' + n)
            data = self.w.fs.get(f)
            if data is None:
                return ['no file', '%s was not written' % f]
            got = json.loads(data.decode('ascii'))
            d = lib.differ(json.loads(json.dumps(want[n])), got)
            if d:
                return ['file', '%s: %s' % (f, '; '.join(d))]
        return None

    def do_many(self, op):
        first, after = {}, {}
        n = 150
        for _ in range(n):
            r = ['ok', self.bm.generateBassRhythm(self.mm, beat_length=4)]
            bad = self.free(dict(op, beats=4), r)
            if bad:
                return bad
            ids = self.last
            first[ids[0]] = first.get(ids[0], 0) + 1
            for a, b in zip(ids, ids[1:]):
                d = after.setdefault(a, {})
                d[b] = d.get(b, 0) + 1
        for what, got, want in [('first', first, self.c.init)] + [('after %d' % a, after[a], self.c.trans[a]) for a in sorted(after)]:
            t = sum(got.values())
            for x, p in share(want).items():
                k = got.get(x, 0)
                if abs(k - t * p) > 6.8 * (t * p * (1 - p)) ** 0.5 + 9:
                    return ['frequency', '%s: %d came %d of %d times, learned with probability %.3f' % (what, x, k, t, p)]

    def do_threads(self, op):
        w = self.w
        k = self.kick(op)

        def free():
            return self.bm.generateBassRhythm(self.mm, beat_length=op['beats'])

        def kick():
            return self.bm.generateBassRhythm(self.mm, beat_length=op['beats'], target=k)
        fns = [free, kick]
        total = 0
        for fn in fns:
            total += conc.threads(w.fs, [fn], [], 1).step
        r = conc.threads(w.fs, fns, self.s['switches'], total)
        self.o.fired({'thread switch': r.nswitch})
        self.o.sigs.append(r.sig)
        return self.free(op, r.out[0]) or (self.constrained(op, r.out[1]) if k.events else self.free(op, r.out[1]))
