# -*- coding: utf-8 -*-
"""C20: editing sessions refine a small model of patterns, whatever was done, cancelled, saved, crashed or reloaded before."""
from __future__ import absolute_import, division, print_function

import re

import lib
import model
import pure
from props.history import genfs, mkworld
from prng import mix
from sched import Interrupter

RUNS = {'quick': 22000, 'thorough': 250000}
JRUNS = {'quick': 100, 'thorough': 3000}
RULE = ('a run is a session on one pattern of up to 25 steps: edits, queries, replacing it by a copy, slice, piece or filtered pattern made from it, cancelled '
        'edits and queries, saves (JSON, pickle), crashes and reloads; each step is compared with a small model of patterns; '
        'non-trivial: at least three edits changed something; distinct: scenario differs')
MEASURE = 'step x what was edited before it (or line at which it was cancelled)'
REAL = ['gsapi.gspattern', 'gsapi.gsio', 'gsapi.gsdescriptors', 'json', 'pickle']
STUB = ['disk: in-memory file system', 'cancellation: an exception raised at a source line of gsapi']
ASSUMPTIONS = ['times are sums of powers of two, where arithmetic on floats is exact', 'no string tag, or part of a tuple tag, is part of another string tag',
               'onsets before the beginning: not for grids, fillings and splits', 'fillWithPreviousEvent: the pattern is not shorter than its last onset',
               'tags from transposing have one digit of octave', 'alignOnGrid: silences longer than a step are of whole steps']

LETTER = re.compile(r'\bu(?=[\'"])')   # Jython writes u'x' for texts that were in JSON files

TAGS = ['Kick', 'Snare', 'Chh', 'silence', 'low Congas', ['t', 'one', 'two'], ['t', 'one', 'six'], ['t', 'ten', 'nil', 'zero']]

LOOK = ['active', 'starting', 'identical', 'filled', 'lastoff', 'slice', 'tags', 'pitches', 'withtags', 'withlist', 'withfn', 'withpitch', 'without',
        'withoutlist', 'split', 'copy', 'bare', 'list', 'cut', 'events', 'eq',
        'chordify', 'nocopy', 'unlike', 'grid']
BECOME = ['slice', 'split', 'withtags', 'withlist', 'withpitch', 'without', 'copy', 'filled']
CHANGE = ['add', 'add', 'align', 'legato', 'prev', 'fill', 'quantize', 'rmtags', 'rm', 'overlap', 'reorder', 'tolast', 'tobar', 'stretch', 'transpose',
          'set', 'field', 'event', 'vp']


# what is said of events before the beginning, too
EARLY = ['add', 'quantize', 'rmtags', 'rm', 'overlap', 'reorder', 'tolast', 'tobar', 'stretch', 'transpose', 'set', 'field', 'event', 'active', 'starting',
         'identical', 'lastoff', 'slice', 'tags', 'pitches', 'withtags', 'withlist', 'withfn', 'withpitch', 'without', 'copy', 'bare', 'legato']


def gpat(r):
    n = r.weighted([(1, 0), (1, 1), (8, r.rint(2, 9)), (0.12, r.rint(20, 110))])
    few = r.sample(TAGS, r.rint(1, 4))
    grid = r.choice([0.25, 0.5, 1, 0.125] if r.chance(0.97) else [4, 16, 100])
    pitches = r.choice([[36, 38, 42], [60, 64, 67], [48, 60, 61, 72], [0, 1, 13], [120, 126, 127]])
    ev = [[r.rint(0, 32) * grid, r.choice([0.25, 0.5, 1, 2, 3, 0.375]), r.choice(pitches), r.choice([1, 64, 126, 127, r.rint(1, 127), r.rint(1, 127)]), r.choice(few)] for _ in range(n)]
    if r.chance(0.12):
        # a little off the grid
        for e in ev:
            e[0] = max(0, e[0] + r.choice([0, 0, 1, -1, 5]) / 2048.)
            e[1] += r.choice([0, 1, -1, 3]) / 2048.
    if r.chance(0.08):
        # some before the beginning
        for e in ev:
            e[0] -= r.choice([2, 2, 0.5, 5])
    if r.chance(0.4):
        ev.sort(key=lambda e: e[0])
    return {'name': r.choice(['p', 'loop 1', 'a.b']), 'duration': r.choice([4, 8, 2, 16, 0.5, 10.5]), 'bpm': r.choice([120, 90.5]),
            'ts': r.choice([[4, 4], [3, 4], [6, 8]]), 'key': r.choice([None, 'C']), 'res': r.choice([960, 96]), 'events': ev,
            'start': r.choice([0, 0, 4]), 'path': r.choice([None, '/from/here.mid'])}


def gop(r, spec, which):
    k = r.choice(which)
    op = pure.gop(r, spec, [k])
    a = op['a']
    if 'tag' in a:
        a['tag'] = r.choice(TAGS + ['one'] + (['C4', 'E3'] if r.chance(0.2) else []))
        if k in ('density2',):
            a.pop('tag')
    if k in ('active', 'starting', 'slice', 'events') and a['t'] == 0.3:
        a['t'] = 0.375
    if k == 'slice' and a['t'] < 0:
        a['t'] = 0
    if k == 'slice':
        a['len'] = a['len'] or 2
    if k == 'transpose' and r.chance(0.4):
        a['by'] = r.choice([12, -12, 24, -36, 60, -60])
    if k == 'stretch':
        a['ratio'] = r.choice([2, 0.5, 1.5, 4, 0.25])
    if k in ('add', 'set'):
        a['e'] = [r.rint(0, 40) * 0.25, r.choice([0.25, 1, 2, 5]), r.choice([36, 38, 60, 64, 67]), r.choice([1, 64, 126, 127, r.rint(1, 127)]), r.choice(TAGS)]
    if k == 'event' and a['field'] == 'tag':
        a['value'] = r.choice(TAGS)
    if k == 'field':
        a['field'], a['value'] = r.choice([['name', 'other'], ['bpm', 99.5], ['duration', 77], ['duration', 3.5], ['timeSignature', [3, 8]], ['key', 'Am'],
                                           ['startTime', 3]])
    if k == 'vp':
        a['desc'] = r.choice(['density', 'tags'])
    return op


def gen(r, tier, i):
    s = {'seed': r.below(1 << 30), 'fs': genfs(r), 'pattern': gpat(r), 'ops': []}
    for k in range(r.weighted([(3, r.rint(2, 6)), (4, r.rint(5, 14)), (2, r.rint(12, 25))])):
        w = r.weighted([(9, 'edit'), (7, 'look'), (2, 'become'), (1, 'save'), (1, 'reload'), (1 if r.chance(0.5) else 0, 'crash')])
        if w in ('save', 'reload', 'crash'):
            op = {'do': w, 'how': r.choice(['json', 'jsonidx', 'pickle']), 'n': r.below(10)}
        else:
            op = {'do': w, 'op': gop(r, s['pattern'], {'edit': CHANGE, 'look': LOOK, 'become': BECOME}[w])}
            op['n'] = r.below(10)
            if w != 'become' and r.chance(0.1):
                op['cancel'] = r.float()
        s['ops'].append(op)
    return s


# ---- what the model says --------------------------------------------------------------------
def mtag(a):
    return model.mtag(a['tag']) if 'tag' in a else pure.NOTAG


def mlook(m, k, a):
    """(kind, value) of a query; 'set' is in any order, and in both sides numbers are floats."""
    ev = lambda l: [model.cev(e) for e in l]
    if k == 'active':
        return ev(model.active(m, a['t']))
    if k == 'starting':
        return ev(model.starting(m, a['t'], a['tol']))
    if k == 'identical':
        return ev(model.identical(m, a['n'], a['all']))
    if k == 'lastoff':
        return model.cnum(model.last(m))
    if k == 'chordify':
        x, out, last = model.bare(m), [], -1
        for e in m['events']:
            if e[0] != last:
                now = model.active(m, e[0])
                tags = ()
                for y in now:
                    tags += y[4] if isinstance(y[4], tuple) else (y[4],)
                model.add(x, [e[0], e[1], 60, 80, tags])
                out.append([model.cnum(e[0]), model.cnum(e[1]), [model.ctag(t) for t in tags], [[model.cnum(y[2]), model.cnum(y[3])] for y in now]])
            last = e[0]
        return [fields(x), sorted(out, key=lambda y: y[0])]   # kept in the order of their onsets
    if k == 'tags':
        return sorted((model.ctag(t) for t in set(e[4] for e in m['events'])), key=repr)
    if k == 'pitches':
        return sorted(set(model.cnum(e[2]) for e in m['events']))
    if k == 'list':
        return [[model.cnum(e[2]), model.cnum(e[0]), model.cnum(e[1])] for e in m['events']]
    if k == 'cut':
        return [ev(model.cut(e, a['step'])) for e in m['events']]
    if k == 'unlike':
        return False
    if k == 'nocopy':
        t = mtag(a)
        l = [lambda e: e[4] == t if a['exact'] else model.part(t, e[4]), lambda e: not (e[4] == t if a['exact'] else model.part(t, e[4])),
             lambda e: e[2] == (m['events'][0][2] if m['events'] else 60)]
        return [[fields(model.only(m, f)) for f in l], [[[n] for n, e in enumerate(m['events']) if f(e)] for f in l]]
    if k == 'grid':
        out = []
        for t in set(e[4] for e in m['events']):
            x = model.only(m, lambda e: e[4] == t)
            cells, was = '', None
            for i in range(int(m['duration'] / float(a['step']))):
                now = [] if model.part('silence', t) else model.active(x, i * a['step'])
                # the first cell may show a beginning as well as a sound that goes on
                cells += '-' if not now else '*' if not i else '>' if was is not None and was[0] == now[0][0] else '|'
                was = now[0] if now else None
            out.append([cells, '%s' % (tuple(lib.native(x) for x in t) if isinstance(t, tuple) else t,)])
        return sorted(out)
    if k == 'eq':
        return [True, False, False, len(m['events']), bool(m['events'])]
    if k == 'events':
        return [[e[0] <= a['t'] < model.end(e), e[4] == mtag(a), model.part(mtag(a), e[4]) or model.part('Kick', e[4]), model.cnum(model.end(e)), model.cev(e)]
                for e in m['events']]
    return [fields(x) for x in mmake(m, k, a)]


def mmake(m, k, a):
    if k == 'copy':
        return [model.copy(m)]
    if k == 'bare':
        return [model.bare(m)]
    if k == 'filled':
        x = model.copy(m)
        model.fill(x, a['max'], a['per'])
        return [x]
    if k == 'slice':
        return [model.tslice(m, a['t'], a['len'], a['trim'])]
    if k == 'split':
        return model.split(m, a['len'], a['sup'])
    t = mtag(a)
    f = {'withtags': lambda e: e[4] == t if a['exact'] else model.part(t, e[4]), 'withlist': lambda e: e[4] in (t, 'Kick'),
         'withfn': lambda e: len(e[4]) % 2 == 0, 'withpitch': lambda e: e[2] == a['pitch'],
         'without': lambda e: not (e[4] == t if a['exact'] else model.part(t, e[4])), 'withoutlist': lambda e: e[4] not in (t, 'Kick')}[k]
    return [model.only(m, f)]


def fields(m):
    if m is None:
        return None
    c = model.canon(m)
    if m.get('anyorder'):
        c['events'].sort(key=repr)
    return c


def look(api, p, k, a, anyorder=False):
    """The same of the code."""
    ev = lambda l: [model.cev(model.ofevent(e)) for e in l]
    if k in ('copy', 'bare', 'filled', 'slice', 'split', 'withtags', 'withlist', 'withfn', 'withpitch', 'without', 'withoutlist'):
        r = pure.READ[k](api, p, a)
        r = [None if x is None else dict(model.of(x), anyorder=k == 'filled' and a['per']) for x in (r if isinstance(r, list) else [r])]
        return [fields(x) for x in r]
    if k == 'eq':
        return pure.READ[k](api, p, a)
    if k == 'unlike':
        return [x[0] for x in pure.READ[k](api, p, a) if True in x[1:]] or False
    if k == 'nocopy':
        r, own = pure.READ[k](api, p, a)
        return [[fields(model.of(x)) for x in r], own]
    if k == 'grid':
        out = []
        for x in pure.READ[k](api, p, a):
            if not x:
                continue
            if not x.startswith('[') or ']: ' not in x:
                return x
            cells, t = x[1:].split(']: ', 1)
            out.append([('*' if cells[:1] in ('|', '>') else cells[:1]) + cells[1:], LETTER.sub('', t)])
        return sorted(out)
    if k == 'events':
        t = pure.tag(api, a)
        return [[e.containsTime(a['t']), e.isTag(t), e.hasOneOfTags((t, 'Kick')), model.cnum(e.endTime()), model.cev(model.ofevent(e.copy()))] for e in p.events]
    r = pure.READ[k](api, p, a)
    if k == 'lastoff':
        return model.cnum(r)
    if k == 'chordify':
        return r if not isinstance(r, list) else [fields(model.of(r[0])), [[model.cnum(x[0]), model.cnum(x[1]), [model.ctag(t) for t in x[2]],
                                                  [[model.cnum(y) for y in z] for z in x[3]]] for x in r[1]]]
    if k == 'tags':
        return sorted((model.ctag(t) for t in r), key=repr)
    if k == 'pitches':
        return sorted(model.cnum(x) for x in r)
    if k == 'list':
        return [[model.cnum(x) for x in e] for e in r]
    if k == 'cut':
        return [ev(x) for x in r]
    return ev(r)


def medit(m, k, a):
    n = len(m['events'])
    if k == 'add':
        model.add(m, [a['e'][0], a['e'][1], a['e'][2], a['e'][3], model.mtag(a['e'][4])])
    elif k == 'align':
        model.align(m, a['step'])
    elif k == 'legato':
        model.legato(m, a['pitch'])
    elif k == 'prev':
        model.previous(m)
    elif k == 'fill':
        model.fill(m, a['max'], a['per'])
    elif k == 'quantize':
        model.quantize(m, a['step'], a['on'], a['dur'])
    elif k == 'rmtags':
        model.rmtags(m, [mtag(a)])
    elif k == 'rm':
        if n:
            model.remove(m, list(m['events'][a['n'] % n]))
    elif k == 'overlap':
        model.overlap(m, a['pitch'])
    elif k == 'reorder':
        model.sort(m)
    elif k == 'tolast':
        model.tolast(m, a['big'])
    elif k == 'tobar':
        model.tobar(m)
    elif k == 'stretch':
        model.stretch(m, a['ratio'])
    elif k == 'transpose':
        model.transpose(m, a['by'])
    elif k == 'set':
        if n:
            m['events'][a['n'] % n] = [a['e'][0], a['e'][1], a['e'][2], a['e'][3], model.mtag(a['e'][4])]
    elif k == 'field':
        f = {'timeSignature': 'ts', 'startTime': 'start'}.get(a['field'], a['field'])
        m[f] = tuple(a['value']) if f == 'ts' else a['value']
    elif k == 'event':
        if n:
            i = {'startTime': 0, 'duration': 1, 'pitch': 2, 'velocity': 3, 'tag': 4}[a['field']]
            m['events'][a['n'] % n][i] = model.mtag(a['value']) if i == 4 else a['value']
    elif k == 'vp':
        model.viewpoint(m, a['name'], a['desc'], a['slice'])


def allowed(m, op):
    """Where the documentation says what comes (see ASSUMPTIONS)."""
    k, a = op['k'], op['a']
    if k not in EARLY and any(e[0] < 0 for e in m['events']):
        return False
    if k == 'prev':
        return all(e[0] <= m['duration'] for e in m['events'])
    if k == 'align':
        return not any(e[4] == 'silence' and e[1] > a['step'] and (e[1] % a['step'] or e[1] > 100 * a['step']) for e in m['events'])
    if k == 'transpose':
        return all(0 <= e[2] + a['by'] <= 131 for e in m['events'])
    if k in ('fill', 'filled', 'cut', 'split', 'vp'):
        # only to keep the runs short
        t = max([m['duration'] / 4.0] + [model.end(e) for e in m['events']])
        return t < 150 and len(m['events']) < 150
    if k == 'stretch':
        return m['duration'] * a['ratio'] < 5000 and m['duration'] * a['ratio'] > 1e-4
    if k == 'withfn':
        return all(hasattr(e[4], '__len__') for e in m['events'])
    return True


def build(w, m):
    p = lib.build(w.api, model.spec(m))
    for k, v in sorted(m['vp'].items()):
        x = p.copyWithoutEvents()
        x.name = lib.native(k)
        x.originPattern = p
        x.duration, x.bpm, x.timeSignature = v['duration'], v['bpm'], v['ts']
        x.events = [w.api.Event(*e) for e in v['events']]
        p.viewpoints[lib.native(k)] = x
    return p


def save(w, p, m, how):
    """(path, what it holds)."""
    m = model.copy(m)
    if how == 'pickle':
        w.api.gsio.toPickleFile(p, '/sim/c20')
        return '/sim/c20/%s.pickle' % m['name'], m
    path = w.api.gsio.toJSONFile(p, '/sim/c20/js', useTagIndexing=how == 'jsonidx', conserveTuple=True)
    m['key'], m['start'], m['res'], m['path'] = None, 0, 960, None
    model.sort(m)
    for v in m['vp'].values():
        model.sort(v)
    return path, m


def load(w, path):
    return w.api.gsio.fromPickleFile(path) if path.endswith('.pickle') else w.api.gsio.fromJSONFile(path, conserveTuple=True)


def run(s, o):
    edits = 0
    last = 'start'
    with mkworld(s) as w:
        m = model.pattern(s['pattern'])
        p = lib.build(w.api, s['pattern'])
        saved = {}
        done = []
        for j, op in enumerate(s['ops']):
            do = op['do']
            name = op['op']['k'] if 'op' in op else '%s %s' % (do, op['how'])
            if 'op' in op and not allowed(m, op['op']):
                continue
            words = name + (' %s' % lib.short(op['op']['a']) if 'op' in op else '')
            k, a = (op['op']['k'], op['op']['a']) if 'op' in op else (None, None)
            cancel = None
            if 'cancel' in op:
                # how many lines the call has, on a copy
                it = Interrupter()
                q = p.copy()
                it(call, w, q, k, a)
                cancel = Interrupter(at=1 + int(op['cancel'] * max(1, it.n)))
            if do == 'look':
                if cancel:
                    try:
                        cancel(look, w.api, p, k, a)
                    except KeyboardInterrupt:
                        o.fired({'cancelled': 1})
                        o.sigs.append(mix(name, cancel.where))
                    words += ' (cancelled at %s)' % cancel.where
                else:
                    got = look(w.api, p, k, a)
                    want = mlook(m, k, a)
                    d = lib.differ(want, got)
                    o.note(name, got)
                    if d:
                        o.bad('result', '%s after %s: %s' % (words, ', '.join(done) or 'nothing', '; '.join(d)))
                        return
                    o.sigs.append(mix(last, name))
            elif do == 'become':
                xs = mmake(m, k, a)
                ps = pure.READ[k](w.api, p, a)
                ps = ps if isinstance(ps, list) else [ps]
                if len(xs) != len(ps):
                    o.bad('result', '%s after %s: %d patterns instead of %d' % (words, ', '.join(done), len(ps), len(xs)))
                    return
                if not xs or xs[op['n'] % len(xs)] is None:
                    continue
                m, p = xs[op['n'] % len(xs)], ps[op['n'] % len(xs)]
                if p is None:
                    o.bad('result', '%s after %s gives no pattern' % (words, ', '.join(done)))
                    return
                last = 'became ' + name
            elif do == 'edit':
                before = repr(m)
                if cancel:
                    try:
                        cancel(call, w, p, k, a)
                    except KeyboardInterrupt:
                        o.fired({'cancelled': 1})
                        o.sigs.append(mix(name, cancel.where))
                    # what was half done is thrown away, and the session goes on from a file or afresh
                    words += ' (cancelled at %s)' % cancel.where
                    if saved:
                        path = sorted(saved)[op['n'] % len(saved)]
                        p, m = load(w, path), model.copy(saved[path])
                        words += ', reload'
                    else:
                        p = build(w, m)
                    last = 'cancelled ' + name
                else:
                    r = pure.apply(w.api, p, op['op'])
                    if r[0] != 'ok':
                        o.bad('raises', '%s after %s raises %s' % (words, ', '.join(done) or 'nothing', r[1]))
                        return
                    medit(m, k, a)
                    if repr(m) != before:
                        edits += 1
                    o.sigs.append(mix(last, name))
                    last = name
            elif do == 'save':
                path, x = save(w, p, m, op['how'])
                saved[path] = x
                if w.fs.get(path) is None:
                    o.bad('no file', '%s did not write %s' % (words, path))
                    return
            elif do in ('reload', 'crash'):
                if do == 'crash':
                    w.boot()
                    o.fired({'crash': 1})
                if saved:
                    path = sorted(saved)[op['n'] % len(saved)]
                    p, m = load(w, path), model.copy(saved[path])
                elif do == 'crash':
                    p = build(w, m)
                last = do
            done.append(words)
            o.steps += 1
            got, want = model.of(p), m
            if m.pop('anyorder', False):
                # silences per tag: any order of the events; the session goes on with the code's
                x, y = fields(dict(got, anyorder=True)), fields(dict(want, anyorder=True))
                if x == y:
                    m['events'] = [list(e) for e in got['events']]
            else:
                x, y = fields(got), fields(want)
            for z in (x, y):
                for v in z['vp'].values():
                    for f in ('start', 'res', 'path', 'key', 'vp'):
                        v.pop(f, None)
            d = lib.differ(y, x)
            o.note(lib.digest(x))
            if d:
                o.bad('pattern', 'after %s: %s' % (', '.join(done), '; '.join(d)))
                return
        o.nontrivial = edits >= 3


def call(w, p, k, a):
    if k in pure.EDIT:
        return pure.EDIT[k](w.api, p, a)
    return look(w.api, p, k, a)
