# -*- coding: utf-8 -*-
"""C17: the density transform gives, for every history of densities and all random numbers, what the densities ask for."""
from __future__ import absolute_import, division, print_function

import conc
import lib
from env import World
from prng import mix
from sched import Interrupter

RUNS = {'quick': 4000, 'thorough': 200000}
JRUNS = {'quick': 60, 'thorough': 2500}
RULE = ('a run is one or two density transformers, each with a history of patterns and densities, cancelled calls and edits of earlier results, '
        'with seeded or scripted (extreme) random numbers; two of them may share the patterns they are given and run as threads, switched as the seed says; '
        'every result is checked against the densities asked for and the result before; '
        'non-trivial: a density was changed from one that was not 1; distinct: scenario differs')
MEASURE = 'mode x steps x size of the voice x way of the density (from, to) x random numbers'
REAL = ['gsapi.gstransformers', 'gsapi.gspattern', 'gsapi.gsdescriptors']
STUB = ['random numbers: seeded per run, or a script (also of extreme values)', 'thread scheduling', 'cancellation at a source line of gsapi']
ASSUMPTIONS = ['onsets are less than 0.4 steps off the grid; patterns have at least one event in the grid',
               'the number of notes may be the one below or above the exact share, which is seldom a whole number',
               'after a cancelled call the transformer is given a pattern again, the same or another']

TAGS = ['Kick', 'Snare', 'Chh', 'silence', ['t', 'a', 'b'], ['c', 'C', 'maj'], 'Kick drum', ['e']]


def gpattern(r, steps, k):
    d = r.choice([4, 2, 1, 16, 8, 3, 0.5, steps, steps, steps, steps])
    size = float(d) / steps
    ev = []
    for t in r.sample(TAGS, r.rint(1, 4)):
        dens = r.choice([0.0, 0.1, 0.4, 0.7, 1.0])
        on = [st for st in range(steps) if r.chance(dens)] or [r.below(steps)]
        off = r.chance(0.4)
        for st in on:
            for _ in range(r.weighted([(12, 1), (1, 2)])):
                x = st + (r.float() - 0.5) * 0.8 if off and st else st
                ev.append([x * size, r.choice([size, size * 3, size / 2.0]), r.rint(30, 90), r.rint(1, 127), t])
    if r.chance(0.15):
        # rounded beyond the end: not in the grid
        ev.append([(steps - 0.3) * size, size, 60, 60, r.choice([e[4] for e in ev])])
    return {'name': 'p%d' % k, 'duration': d, 'events': r.shuffled(ev) if r.chance(0.4) else sorted(ev, key=lambda e: e[0]),
            'bpm': r.choice([120, 90.5]), 'ts': r.choice([[4, 4], [3, 4]])}


def gdens(r, tags):
    out = []
    for t in tags:
        if r.chance(0.75):
            v = r.weighted([(2, 0), (2, 1), (2, 2), (6, r.float() * 2), (1, 0.5), (1, 1.5), (1, r.choice([-1, 3, 2.5, -0.001])),
                            (1, 1 + (r.float() - 0.5) * 0.01)])
            out.append([t, v])
    if r.chance(0.1):
        out.append(['nobody', r.float() * 2])
    return out


def gen(r, tier, i):
    steps = r.choice([4, 8, 16, 16, 32, 5, 12, 1, 2]) if r.chance(0.98) else r.choice([64, 128])
    s = {'seed': r.below(1 << 30), 'nsteps': steps, 'jobs': [], 'switches': [], 'patterns': [gpattern(r, steps, k) for k in range(r.rint(1, 3))]}
    if r.chance(0.3):
        s['everything'] = True
        s['script'] = [r.choice([0.0, 0.999999999999, 0.5, r.float()]) for _ in range(r.choice([2, 20, 200]))]
    for j in range(2 if r.chance(0.3) else 1):
        l = []
        for k in range(r.rint(1, 9)):
            p = s['patterns'][r.below(len(s['patterns']))]
            x = r.weighted([(3 if k else 1, 'more'), (2, 'give'), (1, 'configure'), (1, 'cancel'), (1, 'edit result'), (1, 'become')])
            if not k and x == 'more' or l and l[-1].get('warm') and r.chance(0.6):
                x = 'give'
            warm = x == 'cancel' and l and r.chance(0.6)
            if l and (x == 'more' or warm or l[-1].get('warm') and x in ('give', 'cancel') and r.chance(0.9)):
                p = s['patterns'][l[-1]['p']]
            tags = []
            for e in p['events']:
                if e[4] not in tags:
                    tags.append(e[4])
            l.append({'do': x, 'p': s['patterns'].index(p), 'dens': gdens(r, tags)})
            if x == 'cancel':
                l[-1]['at'] = r.float()
                if warm:
                    # while the densities of a pattern that was given before change
                    l[-1]['warm'] = True
            if x == 'become':
                l[-1]['q'] = r.below(len(s['patterns']))
            if r.chance(0.1):
                l[-1]['dens'] = None
        s['jobs'].append({'mode': r.choice(['random', 'hysteresis', 'random', 'syncopation']), 'ops': l})
    if len(s['jobs']) > 1:
        s['switches'] = conc.gswitches(r, 2)
    return s


def grid(spec, steps):
    """tag -> step -> [[pitch, velocity]] that may be there."""
    out = {}
    for st, d, pi, v, t in spec['events']:
        k = int(st * steps / float(spec['duration']) + 0.5)
        if k < steps:
            out.setdefault(repr(t), {}).setdefault(k, []).append([pi, v])
    return out


class Job(object):
    def __init__(self, w, s, j, pats, was):
        self.w, self.s, self.j, self.pats, self.was = w, s, s['jobs'][j], pats, was
        A = w.api.gstransformers.AgnosticDensity
        self.t = A() if s['nsteps'] == 32 and self.j['mode'] == 'random' else A(mode=self.j['mode'], numSteps=s['nsteps'])
        self.isnow = list(range(len(pats)))     # whose contents each pattern has
        self.given = None       # number of the pattern; None: not known any more
        self.cur = {}           # tag -> density, of those that were asked for since it was given
        self.olds = {}          # tag -> densities that the last steps may come from
        self.maybe = {}         # tag -> densities that may have been reached before a cancelled call
        self.last = None        # tag -> steps
        self.out = []
        self.results = []
        self.sigs = []
        self.changed = False
        self.cancelled = 0

    def dens(self, op):
        if op['dens'] is None:
            return {}
        return {'normalizedDensities': dict((lib.mktag(self.w.api, t), v) for t, v in op['dens'])}

    def run(self, threaded=False):
        for op in self.j['ops']:
            do, n = op['do'], op['p']
            if n >= len(self.pats):
                continue
            if do == 'become':
                # the caller edits the pattern that may be given again
                if not threaded and op['q'] < len(self.pats) and len(self.s['jobs']) == 1:
                    x = lib.build(self.w.api, self.s['patterns'][op['q']])
                    self.pats[n].events, self.pats[n].duration, self.pats[n].timeSignature = x.events, x.duration, x.timeSignature
                    self.isnow[n] = op['q']
                    self.was[n] = lib.snap(self.pats[n])
                continue
            if do == 'edit result':
                if self.results:
                    x = self.results.pop()[0]
                    x.transpose(5)
                    x.timeStretch(3)
                    del x.events[:1]
                continue
            if do == 'cancel':
                if threaded:
                    continue
                it = Interrupter()
                u = self.w.api.gstransformers.AgnosticDensity(mode=self.j['mode'], numSteps=self.s['nsteps'])
                if op.get('warm') and self.isnow[n] == self.given:
                    u.transformPattern(self.pats[n], {})
                it(u.transformPattern, self.pats[n], self.dens(op))
                it = Interrupter(at=1 + int(op['at'] * it.n))
                try:
                    it(self.t.transformPattern, self.pats[n], self.dens(op))
                except KeyboardInterrupt:
                    self.cancelled += 1
                for t, v in list(self.cur.items()) + [(repr(t), min(2, max(0, v))) for t, v in op['dens'] or []]:
                    self.maybe.setdefault(t, []).append(v)
                self.given, self.cur, self.olds, self.last = None, {}, {}, None
                continue
            p = None
            if do == 'more':
                if self.given is None:
                    continue
            elif do == 'configure':
                self.t.configure({'inputPattern': self.pats[n]})
                self.given, self.cur, self.olds, self.last = self.isnow[n], {}, {}, None
            else:
                p = self.pats[n]
                if self.isnow[n] != self.given:
                    self.given, self.cur, self.olds, self.last = self.isnow[n], {}, {}, None
            q = self.dens(op)
            before = sorted((repr(k), v) for k, v in q.get('normalizedDensities', {}).items())
            res = self.t.transformPattern(p, q)
            if sorted((repr(k), v) for k, v in q.get('normalizedDensities', {}).items()) != before:
                return ['input', 'the densities given were changed']
            bad = self.check(res, op, p is not None)
            if bad:
                return bad
            self.results.append((res, lib.snap(res)))
        for x, was in self.results:
            d = lib.differ(was, lib.snap(x))
            if d:
                return ['result changed', 'a pattern that was given out changed in a later call: %s' % '; '.join(d)]
        return None

    def check(self, res, op, again):
        """again: the pattern was given, maybe for the second time, and densities asked for before may still hold or not."""
        spec, n = self.s['patterns'][self.given], self.s['nsteps']
        words = 'densities %s' % (', '.join('%r: %.4g' % (t, v) for t, v in op['dens'] or []) or 'none')
        g = grid(spec, n)
        size = spec['duration'] / float(n)
        if res is None:
            return ['no result', 'nothing is given for %s' % words]
        if abs(res.duration - spec['duration']) > 1e-6 * spec['duration']:
            return ['duration', '%r instead of %r' % (res.duration, spec['duration'])]
        have = {}
        prev = None
        for e in res.events:
            t = lib.ctag(e.tag)
            k = e.startTime / size
            if abs(k - round(k)) > 1e-6 or not -1e-9 < k < n - 0.5 or abs(e.duration - size) > 1e-6 * size:
                return ['grid', 'an event of %r at step %r, %r steps long, for %s' % (t, k, e.duration / size, words)]
            if prev is not None and e.startTime < prev - 1e-9:
                return ['order', 'the events are not in order of time']
            prev = e.startTime
            k = int(round(k))
            v = have.setdefault(self.key(e.tag), {})
            if k in v:
                return ['doubled', 'two events of %r at step %d for %s' % (t, k, words)]
            v[k] = [e.pitch, e.velocity]
        extra = sorted(set(have) - set(g))
        if extra:
            return ['other tag', 'events of %s, which is not in the pattern, for %s' % (extra, words)]
        asked = {}
        for t, v in op['dens'] or []:
            if repr(t) in g:
                asked[repr(t)] = min(2, max(0, v))
        new, olds_ = {}, {}
        for t in sorted(g):
            o, h = g[t], have.get(t, {})
            old = self.cur.get(t, 1)
            steps = sorted(h)
            if t in asked:
                poss = [asked[t]]
            elif again:
                poss = self.olds.get(t, [1]) + [1] + self.maybe.get(t, [])
            else:
                poss = self.olds.get(t, [1])
            why, fit = [], []
            for v in poss:
                b = self.voice(t, o, h, v, n)
                if b is None and self.last is not None and t not in asked and not again and steps != self.last[t]:
                    b = ['other tag', '%s changed from steps %s to %s though only %s' % (t, self.last[t], steps, words)]
                why.append((b, v))
                if b is None:
                    fit.append(v)
            if not fit:
                return [why[0][0][0], '%s (%s; %s)' % (why[0][0][1], words, self.j['mode'])]
            v = fit[0]
            olds = self.olds.get(t, [1])
            if self.last is not None and not again and t in asked:
                was = set(self.last[t])
                if v >= max(olds) and not was <= set(steps):
                    return ['not monotone', '%s went from density %.4g to %.4g and lost steps %s' % (t, old, v, sorted(was - set(steps)))]
                if v <= min(olds) and not was >= set(steps):
                    return ['not monotone', '%s went from density %.4g to %.4g and got steps %s' % (t, old, v, sorted(set(steps) - was))]
            if t in asked:
                self.changed |= self.last is not None and old != 1 and v != old
                self.sigs.append(mix(self.j['mode'], n, len(o), int(old * 4), int(v * 4), 'script' in self.s))
            new[t] = steps
            self.cur[t] = v
            olds_[t] = fit
        self.olds = olds_
        self.maybe = {}
        self.last = new
        self.out.append([sorted(new.items())])
        return None

    def key(self, tag):
        """As in the description."""
        for e in self.s['patterns'][self.given]['events']:
            if lib.mktag(self.w.api, e[4]) == tag:
                return repr(e[4])
        return repr(tag)

    def voice(self, t, o, h, v, n):
        ho, ha = [k for k in h if k in o], [k for k in h if k not in o]
        if v <= 1:
            if ha:
                return ['new notes', '%s has notes at steps %s, where the pattern has none, at density %.4g' % (t, sorted(ha), v)]
            x = len(o) * v
            if abs(len(ho) - x) >= 1 or v in (0, 1) and len(ho) != x:
                return ['number', '%s has %d of %d notes at density %.4g' % (t, len(ho), len(o), v)]
        else:
            if len(ho) < len(o):
                return ['lost notes', '%s lost the notes at steps %s at density %.4g' % (t, sorted(set(o) - set(h)), v)]
            x = (n - len(o)) * (v - 1)
            if abs(len(ha) - x) >= 1 or v == 2 and len(ha) != x:
                return ['number', '%s has %d new notes in %d silent steps at density %.4g' % (t, len(ha), n - len(o), v)]
        for k in ho:
            if h[k] not in o[k]:
                return ['other note', '%s has pitch and velocity %s at step %d, where the pattern has %s' % (t, h[k], k, o[k])]
        all_ = [x for k in o for x in o[k]]
        for k in ha:
            if h[k][0] not in [x[0] for x in all_]:
                return ['other note', '%s got a new note of pitch %d, which no note of it has' % (t, h[k][0])]
        return None


def run(s, o):
    total = 0
    for phase in (1, 2):
        if phase == 2 and len(s['jobs']) < 2:
            break
        with World(s['seed']) as w:
            if 'script' in s:
                w.boot(s['script'], True)
            pats = [lib.build(w.api, p) for p in s['patterns']]
            was = [lib.snap(p) for p in pats]
            jobs = [Job(w, s, j, pats, was) for j in range(len(s['jobs']))]
            if phase == 1:
                for j in jobs:
                    it = Interrupter()
                    bad = j.run() if any(op['do'] == 'cancel' for op in j.j['ops']) else it(j.run)
                    if not it.n and not bad and len(jobs) > 1:
                        it(Job(w, s, jobs.index(j), pats, was).run, True)   # only to count its steps
                    total += it.n
                    o.steps += len(j.j['ops'])
                    if bad:
                        o.bad(*bad)
                        return
            else:
                r = conc.threads(w.fs, [(lambda j=j: j.run(True)) for j in jobs], s['switches'], total)
                o.fired({'thread switch': r.nswitch})
                o.steps += r.step
                o.sigs.append(r.sig)
                for x in r.out:
                    if x[0] != 'ok':
                        o.bad('raises', 'a thread raises %s' % x[1:])
                        return
                    if x[1]:
                        o.bad(x[1][0], 'with another transformer in another thread: ' + x[1][1])
                        return
            for a, b in zip(was, pats):
                d = lib.differ(a, lib.snap(b))
                if d:
                    o.bad('input', 'the pattern given was changed: %s' % '; '.join(d))
                    return
            for j in jobs:
                o.sigs += j.sigs
                o.nontrivial |= j.changed
                if j.cancelled:
                    o.fired({'cancelled': j.cancelled})
                if len(jobs) == 1:
                    o.note(len(j.out))
