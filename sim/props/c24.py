# -*- coding: utf-8 -*-
"""C24: what is told (logging) reaches those who listen, as it is, and changes nothing."""
from __future__ import absolute_import, division, print_function

import errno
import logging
import re
import sys

import conc
import env
import lib
import ops
import pure
from props import c08, c10, c22
from props.history import genfs, mkworld
from prng import mix
from sched import Interrupter

RUNS = {'quick': 4500, 'thorough': 60000}
JRUNS = {'quick': 30, 'thorough': 1500}
RULE = ('a run is one to four jobs (MIDI imports, sessions of edits and queries, saves, loads, styles) with logging switched off, told in full, and under a '
        'configuration of levels, handlers, colours and failing streams that changes between the jobs, one after the other with cancelled jobs in between or in threads; '
        'or a history of imports of sound and of troubled files in a process that configured nothing, with failing and cancelled ones in between; '
        'non-trivial: something was told; distinct: scenario differs')
MEASURE = 'logger x level of the message x who listened (level of logger, handlers, console, colours, failing streams, threads)'
REAL = ['gsapi (all modules, from the working tree)', 'logging']
STUB = ['the streams that handlers write to', 'disk: in-memory file system (sim/simfs.py)', 'thread scheduler (sim/sched.py); locks of handlers are its locks']
ASSUMPTIONS = ['handlers themselves do not raise: as those of the standard library, they keep failures of their streams to themselves',
               'logging is configured after the library was imported', 'the order of messages is compared thread by thread']

LOGGERS = ['gsapi', 'gsapi.gsio', 'gsapi.gspattern', 'gsapi.midiio', 'gsapi.gsdataset', 'gsapi.styles.markov_style']
DEFAULT = {'': 30, 'gsapi': 30, 'gsapi.gsio': 30, 'gsapi.gspattern': 30, 'gsapi.midiio': 30, 'gsapi.gsdataset': 30}
LEVELS = [10, 10, 10, 20, 20, 20, 30, 30, 40, 50, 0, 15]
ANSI = re.compile('\x1b\\[[0-9;]*m')
ADDR = re.compile('0x[0-9a-fA-F]+')
TROUBLES = ['off', 'tempo', 'signature', 'key', 'meta', 'nothing', 'tag', None, None, None]


def gconfig(r, first):
    """Changes of the configuration, in order."""
    out = []
    for _ in range(r.rint(1, 6) if first else r.rint(0, 2)):
        k = r.weighted([(6, 'level'), (2, 'default'), (3, 'colour'), (4, 'handler'), (1, 'propagate'), (1, 'disable'), (2, 'console'), (1, 'errors')])
        if k == 'level':
            out.append([k, r.choice(LOGGERS + ['']), r.choice(LEVELS)])
        elif k == 'default':
            out.append([k, r.choice(LEVELS)])
        elif k in ('colour', 'errors'):
            out.append([k, r.chance(0.5)])
        elif k == 'handler':
            out.append([k, r.choice(['', 'gsapi', 'gsapi'] + LOGGERS), r.choice([0, 0, 0, 10, 20, 30, 40]), r.weighted([(5, None), (1, 'eio'), (1, 'enospc'), (1, 'closed')]),
                        r.chance(0.3)])
        elif k == 'propagate':
            out.append([k, r.choice(LOGGERS), r.chance(0.3)])
        elif k == 'disable':
            out.append([k, r.choice([0, 10, 20, 30, 0])])
        else:
            out.append([k, r.choice(['ok', 'ok', 'eio', 'enospc', 'closed', 'removed', 'back']), r.choice([0, 1, 3]), r.choice([0, 0, 20, 30])])
    return out


def gjob(r, n):
    k = r.weighted([(4, 'import'), (6, 'select'), (2, 'session'), (1, 'style session'), (4, 'overlap'), (2, 'load'), (1, 'save'), (1, 'desc'), (1, 'bad')])
    if k == 'select':
        f = c08.gfile(r, None)
        f['name'] = 's%d' % n + f['name']
        for t in f['tracks']:
            for _ in range(r.weighted([(3, 0), (2, 1), (1, 2)])):
                t['extra'].append([r.below(1 + max([x['off'] for x in t['notes']] or [0])), 'meta'] + gmeta(r, r.choice(['tempo', 'signature', 'key'])))
        return {'k': k, 'file': f, 'tracks': r.choice([None, [0], [1, 2], ['drums'], ['bass', 0], ['no such track']]), 'map': r.choice(c08.MAPS), 'byname': r.chance(0.1),
                'filter': r.chance(0.5), 'overlap': r.chance(0.6), 'dataset': r.chance(0.2)}
    if k == 'bad':
        # questions and orders the library refuses, and says so
        return {'k': k, 'what': r.choice(['slices', 'style', 'exact', 'exact not', 'legato', 'tag']), 'pattern': pure.gpat(r, 5)}
    if k == 'session':
        return c22.gsession(r)
    if k == 'style session':
        return c22.gstyle(r)
    if k == 'overlap':
        p = pure.gpat(r, 8)
        for e in p['events'][1:]:
            e[2], e[4] = p['events'][0][2], p['events'][0][4] if r.chance(0.7) else e[4]
            if r.chance(0.3):
                e[0] = p['events'][0][0]
        return {'k': 'session', 'pattern': p, 'ops': [pure.gop(r, p, [x]) for x in r.sample(['overlap', 'legato', 'prev', 'silences'], r.rint(1, 3)) if x in pure.EDIT] or
                [pure.gop(r, p, pure.EDIT)]}
    return c10.gjob(r, k, n, n, None)


def gmeta(r, what):
    return {'tempo': [0x51, [7, 1, r.below(200)]], 'signature': [0x58, [3, 2, 24, 8]], 'key': [0x59, [r.rint(1, 4), 0]]}[what]


def prepare(w, j, n):
    if j['k'] not in ('select', 'bad'):
        return c22.prepare(w, j, n)
    u = c10.Unit()
    u.j, u.api, u.call = j, w.api, ('t', 0, n)
    if j['k'] == 'bad':
        u.p = lib.build(w.api, j['pattern'])
        return u
    u.path = '/sim/sel%d/%s' % (n, j['file']['name'])
    w.fs.put(u.path, c08.encode(j['file']))
    u.map = ops.mkmap(w.api, j['map'])
    return u


def go(w, u):
    j = u.j
    if j['k'] not in ('select', 'bad'):
        return c22.go(w, u)
    w.fs.begin(u.call)
    try:
        if j['k'] == 'bad':
            return ['ok', refused(w.api, u.p, j['what'])]
        if j['dataset']:
            d = w.api.gsdataset.Dataset(midiFolder=u.path.rpartition('/')[0], midiGlob='*.mid', midiMap=u.map, checkForOverlapped=j['overlap'])
            return ['ok', [lib.snap(p, True) for p in d.patterns]]
        return ['ok', lib.snap(w.api.gsio.fromMidiFile(u.path, u.map, tracksToGet=j['tracks'], tagFromTrackName=j['byname'], filterOutNotMapped=j['filter'],
                                                       checkForOverlapped=j['overlap']), True)]
    except Exception as e:
        if type(e).__name__ in ('Stuck', 'Hang'):
            raise
        return ['raises', type(e).__name__]
    finally:
        w.fs.end()


def refused(api, p, what):
    if what == 'slices':
        return p.generateViewpoint('v', sliceType='no such')
    if what == 'style':
        st = api.gsstyles.MarkovStyle(order=1, numSteps=4, loopDuration=4)
        return repr(st.generateStyle(p))
    if what == 'exact':
        return lib.snap(p.getPatternWithTags(['Kick', 'x'], exactSearch=True))
    if what == 'exact not':
        return lib.snap(p.getPatternWithoutTags(['Kick', 'x'], exactSearch=True))
    if what == 'legato':
        p.events = []
        p.applyLegato(usePitchValues=False)
        p.applyLegato(usePitchValues=True)
        return lib.snap(p)
    return lib.snap(api.gspattern.Pattern(events=[api.gspattern.Event(0, 1, 60, 90, ['a', 'b'])]), True)


def finish(w, u, x):
    if u.j['k'] == 'select':
        return [x]
    if u.j['k'] == 'bad':
        return [x, lib.snap(u.p, True)]
    return c22.finish(w, u, x)


def name(j):
    if j['k'] == 'select':
        return 'an import of tracks %s' % j['tracks']
    if j['k'] == 'bad':
        return 'a refused call (%s)' % j['what']
    return c22.name(j)


def gtrouble(r, n):
    what = r.choice(TROUBLES)
    j = {'what': what, 'via': r.choice(['file', 'file', 'collection', 'dataset']), 'n': n}
    if what in ('nothing', 'tag'):
        j['via'] = what
        j['tag'] = r.choice([['a', 'b'], ['x'], []])
        return j
    f = c08.gfile(r, None)
    for t in f['tracks']:
        t['extra'] = [x for x in t['extra'] if x[1] == 'ch']
        t['stray'] = []
    f['name'] = 'in%d.mid' % n
    if what:
        f['bpm_us'] = f['bpm_us'] or 500000
        f['ts'] = [4, 4]
        f['key'] = [0, 0]
        t = r.choice(f['tracks'])
        at = r.below(1 + max([x['off'] for x in t['notes']] or [0]))
        if what == 'off':
            used = [x['pitch'] for t2 in f['tracks'] for x in t2['notes']]
            t['stray'] = [[at, r.choice([p for p in range(128) if p not in used]), r.below(16), r.chance(0.5)]]
        elif what == 'meta':
            t['extra'].append([at, 'meta', r.choice([0x60, 0x61, 0x0b, 0x30, 0x22]), [r.below(256) for _ in range(r.below(5))]])
        else:
            # after the first one, in time and in the file
            f['metatrack'] = 0
            t = f['tracks'][-1]
            t['extra'].append([at + 1, 'meta'] + gmeta(r, what))
    j['file'] = f
    return j


def gen(r, tier, i):
    s = {'seed': r.below(1 << 30), 'fs': genfs(r), 'jobs': [], 'order': []}
    if r.chance(0.25):
        s['kind'] = 'told'
        n = r.rint(1, 5)
        s['jobs'] = [gtrouble(r, k) for k in range(n)]
        for k in range(r.rint(n, 2 * n)):
            if r.chance(0.2):
                s['order'].append(['cancel', r.below(n), r.float()])
            if r.chance(0.2):
                s['order'].append(['fail', r.below(n), r.choice(['open', 'read'])])
            s['order'].append(['do', k if k < n else r.below(n)])
        return s
    s['kind'] = 'configured'
    n = r.rint(1, 4)
    s['jobs'] = [gjob(r, k) for k in range(n)]
    s['config'] = gconfig(r, True)
    if n > 1 and r.chance(0.3):
        s['threads'] = conc.gswitches(r, n)
        return s
    for k in r.shuffled(list(range(n))):
        if r.chance(0.25):
            s['order'].append(['cancel', r.below(n), r.float()])
        if r.chance(0.4):
            s['order'].append(['config', gconfig(r, False)])
        s['order'].append(['do', k])
    return s


# ---- who listens ------------------------------------------------------------------------
class Stream(object):
    """What a console handler writes to; fails from the n-th write on."""
    encoding = 'utf-8'

    def __init__(self, how='ok', n=0):
        self.how, self.n = how, n
        self.text = []
        self.failed = 0

    def write(self, s):
        if self.how not in ('ok', 'removed', 'back'):
            if self.n <= 0:
                self.failed += 1
                if self.how == 'closed':
                    raise ValueError('I/O operation on closed file')
                raise IOError(errno.EIO if self.how == 'eio' else errno.ENOSPC, self.how)
            self.n -= 1
        self.text.append(s)
        return len(s)

    def flush(self):
        if self.how == 'closed':
            raise ValueError('I/O operation on closed file')


def thread():
    s = env.LOCKS.sched
    return s.current if s is not None else 0


class Listener(logging.Handler):
    def __init__(self, level):
        logging.Handler.__init__(self, level)
        self.setFormatter(logging.Formatter('%(levelname)s %(name)s %(message)s'))
        self.lock = env.SimLock(True)
        self.got = []

    def emit(self, record):
        self.got.append((thread(), record, self.format(record)))


class Logging(object):
    """The configuration of one world, as set and as it should behave."""

    def __init__(self, w):
        g = sys.modules['gsapi.gslog']
        self.log = g
        self.console = logging.getLogger('gsapi').handlers[0]
        self.console.lock = env.SimLock(True)
        self.stream = self.console.stream = Stream()
        self.consolelevel = 0
        self.removed = False
        self.levels = dict(DEFAULT)
        self.mute = set()
        self.disabled = 0
        self.colour = True
        self.listeners = []     # (logger, level, Listener)
        self.others = []
        self.failing = False
        logging.disable(logging.NOTSET)
        for n in LOGGERS:
            logging.getLogger(n)

    def apply(self, changes):
        for c in changes:
            k = c[0]
            if k == 'level':
                logging.getLogger(c[1] or None).setLevel(c[2])
                self.levels[c[1]] = c[2]
            elif k == 'default':
                self.log.setDefaultLoggingLevel(c[1])
                self.levels['gsapi'] = c[1]
            elif k == 'colour':
                self.log.setUseColoredOutput(c[1])
                self.colour = c[1]
            elif k == 'errors':
                logging.raiseExceptions = c[1]
            elif k == 'propagate':
                logging.getLogger(c[1]).propagate = c[2]
                (self.mute.discard if c[2] else self.mute.add)(c[1])
            elif k == 'disable':
                logging.disable(c[1])
                self.disabled = c[1]
            elif k == 'console':
                g = logging.getLogger('gsapi')
                if c[1] == 'removed':
                    g.removeHandler(self.console)
                    self.removed = True
                    continue
                if c[1] == 'back':
                    g.addHandler(self.console)
                    self.removed = False
                self.stream = self.console.stream = Stream(c[1], c[2])
                self.console.setLevel(c[3])
                self.consolelevel = c[3]
            else:
                lg = logging.getLogger(c[1] or None)
                if c[3]:
                    h = logging.StreamHandler(Stream(c[3]))
                    h.lock = env.SimLock(True)
                    h.setLevel(c[2])
                    self.failing = True
                else:
                    h = Listener(c[2])
                    self.listeners.append((c[1], c[2], h))
                self.others.append((c[1], h))
                if c[4]:
                    lg.handlers.insert(0, h)
                else:
                    lg.addHandler(h)

    def close(self):
        for n, h in self.others:
            logging.getLogger(n or None).removeHandler(h)
        logging.getLogger().setLevel(logging.WARNING)
        logging.disable(logging.CRITICAL)
        logging.raiseExceptions = False

    def effective(self, name):
        while True:
            if self.levels.get(name):
                return self.levels[name]
            if not name:
                return 0
            name = name.rpartition('.')[0]

    def reaches(self, rec, on, level):
        """Whether a record gets to a handler of that level at that logger."""
        name, lvl = rec[0], rec[1]
        if lvl <= self.disabled or lvl < self.effective(name) or lvl < level:
            return False
        while True:
            if name == on:
                return True
            if not name or name in self.mute:
                return False
            name = name.rpartition('.')[0]

    def state(self):
        """What the library must leave as it was set."""
        l = [['root', [type(h).__name__ for h in logging.getLogger().handlers]], ['disabled', logging.getLogger().manager.disable], ['console', self.console.level, self.console.stream is self.stream, len(self.console.filters)]]
        for n in [''] + LOGGERS:
            g = logging.getLogger(n or None)
            l.append([n, g.level, bool(g.propagate), [type(h).__name__ for h in g.handlers], len(g.filters), bool(g.disabled)])
        return l

    def clear(self):
        for _, _, h in self.listeners:
            h.got = []
        self.stream.text = []


def plain(m):
    return ADDR.sub('0x', lib.text(m))


def heard(h):
    """thread -> [[logger, level, message]]"""
    out = {}
    for t, rec, _ in h.got:
        out.setdefault(t, []).append([rec.name, rec.levelno, plain(rec.getMessage())])
    return out


def words(c):
    return ' '.join(str(x) for x in c)


# ---- runs ---------------------------------------------------------------------------------
def run(s, o):
    if s['kind'] == 'told':
        return told(s, o)
    quiet = []
    with mkworld(s) as w:
        us = [prepare(w, j, n) for n, j in enumerate(s['jobs'])]
        for u in us:
            quiet.append(finish(w, u, go(w, u)))
    total = 0
    full, counts = [], []
    with mkworld(s) as w:
        us = [prepare(w, j, n) for n, j in enumerate(s['jobs'])]
        L = Logging(w)
        try:
            L.apply([['level', n, 10] for n in LOGGERS] + [['handler', 'gsapi', 0, None, True]])
            h = L.listeners[0][2]
            for n, u in enumerate(us):
                h.got = []
                it = Interrupter()
                x = it(go, w, u)
                counts.append(it.n)
                total += it.n
                try:
                    full.append(heard(h).get(0, []))
                except Exception as e:
                    o.bad('unreadable', '%s tells something that cannot be put into words (%s: %s)' % (name(s['jobs'][n]), type(e).__name__, e))
                    return
                if differ(o, quiet[n], finish(w, u, x), s, n, 'everything is told'):
                    return
        finally:
            L.close()
    o.note(quiet, full)
    with mkworld(s) as w:
        us = [prepare(w, j, n) for n, j in enumerate(s['jobs'])]
        L = Logging(w)
        try:
            L.apply(s['config'])
            done = list(s['config'])
            if 'threads' in s:
                L.clear()
                st = L.state()
                r = conc.threads(w.fs, [(lambda u=u: go(w, u)) for u in us], s['threads'], total)
                o.steps += r.step
                o.fired({'thread switch': r.nswitch})
                if not listened(o, L, dict((n, m) for n, m in enumerate(full) if m), done, s, 'jobs in %d threads' % len(us)) or not same(o, L, st, done):
                    return
                for n, u in enumerate(us):
                    if r.out[n][0] != 'ok':
                        o.bad('raises', '%s raises %s in a thread while %s' % (name(s['jobs'][n]), r.out[n][1:], conf(done)))
                        return
                    if differ(o, quiet[n], finish(w, u, r.out[n][1]), s, n, 'others run in threads and logging is configured: ' + conf(done)):
                        return
                return
            for step in s['order']:
                o.steps += 1
                if step[0] == 'config':
                    L.apply(step[1])
                    done += step[1]
                    continue
                n = step[1]
                if step[0] == 'cancel':
                    u = prepare(w, s['jobs'][n], n)
                    it = Interrupter(at=1 + int(step[2] * max(1, counts[n])))
                    try:
                        it(go, w, u)
                    except KeyboardInterrupt:
                        pass
                    if it.fired:
                        o.fired({'cancelled': 1})
                        us[n] = prepare(w, s['jobs'][n], n)
                    continue
                u = us[n] = prepare(w, s['jobs'][n], n)
                L.clear()
                st = L.state()
                x = go(w, u)
                if not listened(o, L, {0: full[n]}, done, s, name(s['jobs'][n])) or not same(o, L, st, done):
                    return
                if differ(o, quiet[n], finish(w, u, x), s, n, 'logging is configured: ' + conf(done)):
                    return
        finally:
            L.close()


def conf(done):
    return '; '.join(words(c) for c in done)


def differ(o, a, b, s, n, when):
    o.probe(s['jobs'][n]['k'])
    d = lib.differ(a, b)
    if d:
        o.bad('other result', '%s gives something else when %s: %s' % (name(s['jobs'][n]), when, '; '.join(d)))
    return bool(d)


def same(o, L, st, done):
    d = lib.differ(st, L.state())
    if d:
        o.bad('configuration', 'a call changed how logging was configured (%s): %s' % (conf(done), '; '.join(d)))
    return not d


def listened(o, L, full, done, s, what):
    """Whether each handler got what it should, and nothing else."""
    for on, level, h in L.listeners:
        want = dict((t, [m for m in ms if L.reaches(m, on, level)]) for t, ms in full.items())
        want = dict((t, ms) for t, ms in want.items() if ms)
        try:
            got = heard(h)
        except Exception as e:
            o.bad('unreadable', '%s tells something that cannot be put into words (%s: %s)' % (what, type(e).__name__, e))
            return False
        if want:
            o.nontrivial = True
        if got != want:
            o.bad('wrong messages', '%s: a handler of level %d at logger %r got %s instead of %s; configuration: %s' % (
                what, level, on, lib.short(sorted(got.items())), lib.short(sorted(want.items())), conf(done)))
            return False
        for t, rec, text in h.got:
            name = logging.getLevelName(rec.levelno)
            o.sigs.append(mix(rec.name, rec.levelno, on, level, L.effective(rec.name), L.stream.how, L.colour, L.removed, L.failing, 'threads' in s))
            if text != '%s %s %s' % (name, rec.name, rec.getMessage()) or rec.levelname != name:
                o.bad('message changed', '%s: a handler at logger %r shows %r, level name %r then %r, for a message of level %s; configuration: %s' % (
                    what, on, text, text.split(' gsapi')[0], rec.levelname, name, conf(done)))
                return False
    if L.stream.failed:
        o.fired({'stream of the console: ' + L.stream.how: L.stream.failed})
        return True
    if L.stream.how not in ('ok', 'back'):
        return True
    want = [] if L.removed else [m for ms in full.values() for m in ms if L.reaches(m, 'gsapi', L.consolelevel)]
    if want:
        o.nontrivial = True
        o.sigs.append(mix(repr(sorted(set((m[0], m[1]) for m in want))), 'console', L.colour, 'threads' in s))
    return console(o, L, want, what, done, s)


def console(o, L, want, what, done, s):
    text = plain(''.join(lib.text(x) for x in L.stream.text))
    shown = ANSI.sub('', text)
    left = shown
    pos = 0
    for name, lvl, m in want if 'threads' not in s else sorted(want, key=lambda m: -len(m[2])):
        k = left.find(m, 0 if 'threads' in s else pos)
        if k < 0:
            o.bad('not on the console', '%s: %s %r is not on the console, which shows %s; configuration: %s' % (what, name, m, lib.short(shown), conf(done)))
            return False
        left = left[:k] + '\0' + left[k + len(m):]
        pos = k + 1
    for n in LOGGERS:
        k = len([m for m in want if m[0] == n])
        if len(re.findall(re.escape(n) + r'(?![.\w])', left)) != k:
            o.bad('wrong on the console', '%s: the console shows another number of messages of %s than %d: %s; configuration: %s' % (what, n, k, lib.short(shown), conf(done)))
            return False
    for l in set(m[1] for m in want):
        k = len([m for m in want if m[1] == l])
        if left.count(logging.getLevelName(l)) != k:
            o.bad('wrong on the console', '%s: the console shows another number of messages of level %s than %d: %s; configuration: %s' % (
                what, logging.getLevelName(l), k, lib.short(shown), conf(done)))
            return False
    if not want and shown.strip():
        o.bad('wrong on the console', '%s: the console shows %s though nothing was told; configuration: %s' % (what, lib.short(shown), conf(done)))
        return False
    if want and (text != shown) != bool(L.colour):
        o.bad('colours', '%s: colours are %s, the console shows %s' % (what, 'on' if L.colour else 'off', lib.short(text)))
        return False
    return True


# ---- nothing configured: trouble is told ----------------------------------------------------
def told(s, o):
    with mkworld(s) as w:
        L = Logging(w)
        try:
            h = Listener(0)
            logging.getLogger().addHandler(h)
            L.others.append(('', h))
            for j in s['jobs']:
                if 'file' in j:
                    w.fs.put('/sim/t%d/%s' % (j['n'], j['file']['name']), c08.encode(j['file']))
            w.fs.mkdirs('/sim/empty')
            counts = {}
            before = []
            for step in s['order']:
                j = s['jobs'][step[1]]
                o.steps += 1
                if step[0] == 'cancel':
                    it = Interrupter(at=1 + int(step[2] * counts.get(step[1], 300)))
                    try:
                        it(act, w, j)
                    except KeyboardInterrupt:
                        pass
                    if it.fired:
                        o.fired({'cancelled': 1})
                        before.append('cancelled ' + describe(j))
                    continue
                if step[0] == 'fail':
                    w.fs.faults[('t', step[2], 0)] = {'kind': 'eio'}
                    f = sum(w.fs.fired.values())
                    try:
                        act(w, j)
                    except Exception as e:
                        if type(e).__name__ in ('Stuck', 'Hang'):
                            raise
                    w.fs.faults = {}
                    if sum(w.fs.fired.values()) > f:
                        o.fired({'eio': 1})
                        before.append('failed ' + describe(j))
                    continue
                L.clear()
                h.got = []
                it = Interrupter()
                it(act, w, j)
                counts[step[1]] = it.n
                got = [[rec.name, rec.levelno, plain(rec.getMessage())] for _, rec, _ in h.got]
                o.note(j['what'], got)
                o.sigs.append(mix(j['what'] or 'sound', j['via'], len(before), repr(sorted(set(m[0] for m in got)))))
                if j['what']:
                    o.nontrivial = True
                    o.probe('trouble: ' + j['what'])
                bad = [m for m in got if m[1] >= 30]
                if j['what'] and not bad:
                    o.bad('not told', '%s is not told (after %s)' % (describe(j), '; '.join(before) or 'nothing'))
                    return
                if not j['what'] and got:
                    o.bad('told for nothing', '%s: %s' % (describe(j), lib.short(got)))
                    return
                if any(m[1] < 30 for m in got):
                    o.bad('too much told', '%s: %s though nothing was configured' % (describe(j), lib.short(got)))
                    return
                if not console(o, L, got, describe(j), [], s):
                    return
                before.append(describe(j))
        finally:
            L.close()


def describe(j):
    return 'via %s: %s' % (j['via'], {'off': 'the end of a note that never began', 'tempo': 'a second tempo', 'signature': 'a second time signature', 'key': 'a second key',
                                     'meta': 'a meta event of no known kind', 'nothing': 'a data set without files', 'tag': 'a tag that is a list', None: 'a sound file'}[j['what']])


def act(w, j):
    w.fs.begin('t')
    try:
        a = w.api
        if j['via'] == 'nothing':
            a.gsdataset.Dataset(midiFolder='/sim/empty', midiGlob='*.mid', midiMap=a.gsdefs.simpleDrumMap)
        elif j['via'] == 'tag':
            a.gspattern.Event(0, 1, 60, 100, list(j['tag']))
        elif j['via'] == 'file':
            a.gsio.fromMidiFile('/sim/t%d/%s' % (j['n'], j['file']['name']))
        elif j['via'] == 'collection':
            a.gsio.fromMidiCollection('/sim/t%d/*.mid' % j['n'])
        else:
            a.gsdataset.Dataset(midiFolder='/sim/t%d' % j['n'], midiGlob='*.mid', midiMap='pitchName')
    finally:
        w.fs.end()
