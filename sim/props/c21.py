# -*- coding: utf-8 -*-
"""C21: damaged files; what a load makes of them, and what it leaves behind."""
from __future__ import absolute_import, division, print_function

import io
import json
import struct

import conc
import lib
import ops
from props import c08
from props.history import genfs, mkworld
from prng import mix
from sched import Interrupter
from simfs import PY3, text_types

RUNS = {'quick': 6000, 'thorough': 200000}
JRUNS = {'quick': 100, 'thorough': 3000}
RULE = ('a run is a history of loads of one to three files (MIDI, JSON, style), some of which were damaged (bytes changed, removed, inserted, blocks moved, '
        'foreign bytes) and repaired in between; a strict independent reader says whether the damaged file is still a valid one; '
        'non-trivial: a damaged file was loaded; distinct: scenario differs')
MEASURE = 'kind of file x kind of damage x where (in 1/32) x how the load ended'
REAL = ['gsapi.gsio', 'gsapi.midiio', 'gsapi.gsstyles', 'gsapi.gspattern', 'json', 'io buffering and text layers']
STUB = ['disk: in-memory file system (sim/simfs.py)']
ASSUMPTIONS = ['pickle files are left out: Python says itself that damaged ones may do anything', 'damaged lengths of chunks stay below 16 MB (those of events do not)', 'a load takes less than 1 GB more on CPython, 3 GB in all on Jython',
               'a load ends within 400 source lines per byte plus 60000']

DAMAGE = ['flip', 'flip', 'flip', 'digit', 'set', 'drop', 'insert', 'move', 'zero', 'random', 'repeat', 'swap', 'meta', 'start', 'tail', 'length']


def gen(r, tier, i):
    s = {'seed': r.below(1 << 30), 'fs': genfs(r), 'files': [], 'ops': []}
    for k in range(r.rint(1, 3)):
        kind = r.weighted([(5, 'midi'), (4, 'json'), (1.5, 'style')])
        if kind == 'midi':
            f = c08.gfile(r, None)
            f['name'] = 'f%d.mid' % k
            s['files'].append({'kind': 'midi', 'file': f})
        elif kind == 'json':
            p = lib.gpattern(r, maxev=6)
            p['name'] = 'f%d' % k
            if r.chance(0.3) and p['events']:
                p['vps'] = lib.gvps(r, p)
            s['files'].append({'kind': 'json', 'pattern': p, 'idx': r.chance(0.5)})
        else:
            st = ops.gstyle(r)
            s['files'].append({'kind': 'style', 'style': st, 'other': ops.gstyle(r)})
    for k in range(r.rint(2, 8)):
        if k == 0 or r.chance(0.6):
            op = {'do': 'damage', 'n': r.below(3), 'how': []}
            for _ in range(r.weighted([(5, 1), (2, 2), (1, 5)])):
                op['how'].append([r.choice(DAMAGE), r.float(), r.below(256), r.float()])
        else:
            op = {'do': r.choice(['good', 'collection', 'good']), 'n': r.below(3)}
        s['ops'].append(op)
    return s


def damage(data, how):
    b = bytearray(data)
    for kind, at, x, y in how:
        n = len(b)
        if not n:
            break
        i = min(n - 1, int(at * n))
        j = min(n, i + 1 + int(y * y * y * n))
        if kind == 'flip':
            b[i] ^= 1 << (x & 7)
        elif kind == 'set':
            b[i] = x
        elif kind == 'digit':
            # the next number is another one
            while i < n - 1 and not 48 <= b[i] < 58:
                i += 1
            b[i] = 48 + x % 10
        elif kind == 'drop':
            del b[i:j]
        elif kind == 'insert':
            b[i:i] = bytearray((x * (k + 1) * 7 + k) & 255 for k in range(1 + int(y * 6)))
        elif kind == 'move':
            c = b[i:j]
            del b[i:j]
            k = (x * len(b)) // 256
            b[k:k] = c
        elif kind == 'length':
            # the next event of the file is longer than any memory
            while i < n - 1 and b[i] not in (0xff, 0xf0):
                i += 1
            i += 2 if b[i] == 0xff else 1
            b[i:i + 1] = bytearray([0xff] * [3, 3, 1, 9][x % 4] + [0x7f])
        elif kind == 'tail':
            # something behind the end
            b += [b'}', b'\n', b'{}', b'x', b'MTrk\0\0\0\1\0', b'[1]', bytes(b[i:j])][x % 7]
        elif kind == 'zero':
            b[i:j] = bytearray(j - i)
        elif kind == 'random':
            b[i:j] = bytearray((x * 31 + k * k * 17 + k) & 255 for k in range(j - i))
        elif kind == 'repeat':
            b[i:i] = b[i:j]
        elif kind == 'meta':
            # inside the next meta event
            k = bytes(b).find(b'\xff', i)
            k = k if k >= 0 else bytes(b).find(b'\xff')
            if k >= 0:
                i = min(n - 1, k + 1 + int(y * 5))
            b[i] = x
        elif kind == 'start':
            # the first events of a track
            k = bytes(b).find(b'MTrk', i)
            k = k if k >= 0 else bytes(b).rfind(b'MTrk')
            if k >= 0:
                i = min(n - 1, k + 8 + int(y * 4))
                if x & 1 and k + 8 < n:
                    # lost, and the length knows it
                    del b[i]
                    m = struct.unpack('>L', bytes(b[k + 4:k + 8]))[0]
                    b[k + 4:k + 8] = bytearray(struct.pack('>L', max(0, m - 1)))
                    continue
            b[i] = x
        elif kind == 'swap':
            k = min(n - 1, int(y * n))
            b[i], b[k] = b[k], b[i]
    return bytes(b)


def smalllengths(b):
    """Chunk lengths of at most 16 MB: larger ones would only cost memory."""
    b = bytearray(b)
    if len(b) > 4:
        b[4] = 0
    i = bytes(b).find(b'MTrk')
    while i >= 0 and i + 4 < len(b):
        b[i + 4] = 0
        i = bytes(b).find(b'MTrk', i + 1)
    if len(b) > 13 and b[10] * 256 + b[11] > 64:
        b[10] = 0       # a track count without end
    return bytes(b)


# ---- what a valid file says -------------------------------------------------------------------
def midi(data, name):
    """(file, notes, length) as in c08, or None: not a file that a strict reader accepts."""
    try:
        m = lib.decode_midi(data)
    except lib.BadMidi:
        return None
    if m['format'] > 2 or not 0 < m['res'] < 0x8000:
        return None
    f = {'res': m['res'], 'bpm_us': None, 'ts': None, 'key': None, 'name': name}
    notes = []
    dur = 0
    metas = {}
    for t in m['tracks']:
        ends = {}
        try:
            l = lib.midi_notes(t)
        except lib.BadMidi:
            return None
        for on, off, pitch, vel, ch in l:
            # which of overlapping notes of one pitch ends first is anybody's guess
            if on < ends.get(pitch, 0) or off - on < max(1, m['res'] * 0.0002):
                return None
            ends[pitch] = off
            notes.append([pitch, on, off, vel, c08.tagof(None, None, pitch, ch)])
        for e in t:
            dur = max(dur, e[0])
            if e[1] == 'meta':
                c, d = e[2], e[3]
                if c in (0x51, 0x58, 0x59):
                    if c in metas:
                        return None
                    metas[c] = 1
                if c == 0x51:
                    f['bpm_us'] = len(d) == 3 and d[0] << 16 | d[1] << 8 | d[2]
                    if not f['bpm_us']:
                        return None
                elif c == 0x58:
                    if len(d) != 4 or not d[0] or d[1] > 6:
                        return None
                    f['ts'] = [d[0], 1 << d[1]]
                elif c == 0x59:
                    if len(d) != 2 or d[1] > 1 or not (d[0] <= 7 or d[0] >= 249):
                        return None
                    f['key'] = [d[0] if d[0] < 128 else d[0] - 256, d[1]]
                elif c == 0x2f:
                    if d:
                        return None
                elif any(x > 126 for x in d) and 1 <= c <= 15 and c == 3:
                    return None
    return f, notes, dur


def broken(data):
    """Why the bytes are surely no MIDI file that a reader could believe; None: they are one, or a lenient reader may take them for one."""
    b = bytearray(data)
    if bytes(b[:4]) != b'MThd':
        return 'no header'
    if len(b) < 14:
        return 'cut in the header'
    hl, _, nt, _ = struct.unpack('>LHHH', bytes(b[4:14]))
    i = 8 + hl
    if hl < 6:
        return None
    for t in range(nt):
        if bytes(b[i:i + 4]) != b'MTrk':
            return 'track %d does not start' % t
        if i + 8 > len(b):
            return 'track %d is cut' % t
        n = struct.unpack('>L', bytes(b[i + 4:i + 8]))[0]
        i += 8
        if i + n > len(b):
            return 'track %d is cut' % t
        r = brokentrack(b[i:i + n])
        if r:
            return 'track %d: %s' % (t, r)
        i += n
    return None


def brokentrack(b):
    pos = 0
    status = None
    n = len(b)
    while pos < n:
        for c in range(2):
            # a number: the time, then (if a meta event) its length
            v = 0
            while True:
                if pos >= n:
                    return 'ends inside an event'
                x = b[pos]
                pos += 1
                v = v << 7 | x & 127
                if x < 128:
                    break
            if c or pos >= n or b[pos] != 0xff:
                break
            if pos + 2 > n:
                return 'ends inside an event'
            kind = b[pos + 1]
            pos += 2
        else:
            c = None
        if c:
            if pos + v > n:
                return 'ends inside an event'
            d = b[pos:pos + v]
            pos += v
            if kind == 0x59 and d and 7 < d[0] < 249:
                return 'impossible key'
            if kind == 0x51 and len(d) < 3:
                return 'impossible tempo'
            continue
        if pos >= n:
            return 'ends inside an event'
        x = b[pos]
        if x in (0xf0, 0xf7):
            pos += 1
            v = 0
            while True:
                if pos >= n:
                    return 'ends inside an event'
                v = v << 7 | b[pos] & 127
                pos += 1
                if b[pos - 1] < 128:
                    break
            pos += v
            if pos > n:
                return 'ends inside an event'
            continue
        if 0x80 <= x < 0xf0:
            status = x
            pos += 1
        elif x > 0xf0:
            return 'a status that files do not have'
        if status is None:
            return 'an event without status'
        pos += 1 if status >> 4 in (0xc, 0xd) else 2
        if pos > n:
            return 'ends inside an event'
    return None


class Unsure(Exception):
    pass


def number(x):
    if isinstance(x, bool) or not (isinstance(x, (int, float)) or hasattr(x, 'bit_length')):
        raise Unsure()
    return lib.num(x)


def jtag(t):
    if isinstance(t, list):
        return ['t'] + [jtag(x) for x in t]     # an event makes tuples of lists
    if isinstance(t, text_types):
        return lib.ctag(t)
    if isinstance(t, dict) or t is None or isinstance(t, bool):
        raise Unsure()
    return lib.ctag(t)


def jpattern(d):
    """What the file says (as lib.snap), by the documented format; KeyError: something is missing."""
    t = d['timeInfo']
    r = {'name': lib.ctag(d['name']) if isinstance(d['name'], text_types) else None, 'duration': number(t['duration']), 'bpm': number(t['bpm'])}
    if r['name'] is None or not isinstance(t['timeSignature'], list):
        raise Unsure()
    r['ts'] = ['t'] + [['n', number(x)] for x in t['timeSignature']]
    ev = []
    for e in d['eventList']:
        x = [number(e['on']), number(e['duration']), number(e['pitch']), number(e['velocity'])]
        if 'eventTags' in d:
            tags, n = d['eventTags'], e['tagsIdx']
            for k in n if isinstance(n, list) else [n]:
                if isinstance(k, bool) or not hasattr(k, 'bit_length') or not 0 <= k < len(tags):
                    raise Unsure()
            x.append(['t'] + [jtag(tags[k]) for k in n] if isinstance(n, list) else jtag(tags[n]))
        else:
            x.append(jtag(e['tag']))
        ev.append((float(x[0]), len(ev), x))
    if any(x[0] != x[0] for x in ev):
        raise Unsure()
    r['events'] = [x[2] for x in sorted(ev)]
    r['vp'] = dict((lib.text(k), jpattern(v)) for k, v in d['viewpoints'].items())
    return r


def jsonfile(data):
    """['is', pattern], ['bad'] or ['unsure']."""
    try:
        d = json.loads(data.decode('ascii'), object_pairs_hook=pairs)
    except UnicodeError:
        return ['unsure']
    except (ValueError, RuntimeError):
        return ['bad']
    try:
        if not isinstance(d, dict):
            return ['bad']
        return ['is', jpattern(d)]
    except KeyError:
        return ['bad']
    except (Unsure, TypeError, ValueError, AttributeError, IndexError, OverflowError):
        return ['unsure']


def stylefile(data):
    """['is', style as ops.cstyle gives it], ['bad'] or ['unsure']."""
    try:
        d = json.loads(data.decode('ascii'), object_pairs_hook=pairs)
    except UnicodeError:
        return ['unsure']
    except (ValueError, RuntimeError):
        return ['bad']
    if not d:
        return ['unsure']       # nothing: a style that has not learned
    try:
        d = d['markovChain']
        table = d['transitionTable']
        o, n, l = d['order'], d['numSteps'], d['loopDuration']
    except (KeyError, TypeError):
        return ['bad'] if 'timeInfo' not in data.decode('ascii') else ['unsure']
    try:
        for x in (o, n, l):
            number(x)
        out = []
        for t in table:
            if not isinstance(t, list) or any(not isinstance(x, list) or len(x) != 2 or not isinstance(x[0], list) or not isinstance(x[1], list) for x in t):
                return ['unsure']
            pasts, y = [], []
            for past, l2 in t:
                if any(not isinstance(e, list) or len(e) != 2 or not isinstance(e[0], list) for e in l2):
                    return ['unsure']
                y.append([state(past), sorted([state(e), number(p)] for e, p in l2)])
                pasts.append(state(past))
                if len(set(lib.digest(state(e)) for e, p in l2)) < len(l2):
                    return ['unsure']
            if len(set(lib.digest(x) for x in pasts)) < len(pasts):
                return ['unsure']
            out.append(sorted(y))
        return ['is', ['markov', o, n, l, out]]
    except (Unsure, TypeError, ValueError, AttributeError, IndexError, OverflowError):
        return ['unsure']


def state(x):
    def tup(y):
        if isinstance(y, list):
            return tuple(tup(z) for z in y)
        if isinstance(y, dict) or y is None or isinstance(y, bool):
            raise Unsure()
        return y
    return lib.ctag(tup(x))


def pairs(l):
    d = dict(l)
    if len(d) < len(l):
        d['timeInfo'] = None        # twice the same name: nobody's guess
    return d


# ---- a run ----------------------------------------------------------------------------------------
class Thing(object):
    """One of the files: how it is made and loaded, and what the good one gives."""

    def __init__(self, w, k, f):
        self.f, self.kind = f, f['kind']
        if self.kind == 'midi':
            self.path = '/sim/in/%s' % f['file']['name']
            w.fs.put(self.path, c08.encode(f['file']))
        elif self.kind == 'json':
            self.path = w.api.gsio.toJSONFile(lib.build(w.api, f['pattern']), '/sim/in', useTagIndexing=f['idx'])
        else:
            self.path = '/sim/in/f%d.style' % k
            st = ops.mkstyle(w.api, f['style'])
            st.saveToJSON(self.path)
        self.good = w.fs.get(w.fs.norm(self.path))
        self.exp = self.look(self.load(w))

    def load(self, w, into=None):
        if self.kind == 'midi':
            return w.api.gsio.fromMidiFile(self.path)
        if self.kind == 'json':
            return w.api.gsio.fromJSONFile(self.path)
        st = into if into is not None else ops.emptystyle(w.api, {'style': self.f['style'], 'op': 'x'})
        st.loadFromJSON(self.path)
        return st

    def look(self, x):
        return ops.cstyle(x) if self.kind == 'style' else lib.snap(x, True)


try:
    from java.lang import OutOfMemoryError
    NOMEM = (MemoryError, OutOfMemoryError)
except ImportError:
    NOMEM = (MemoryError,)


def room(more, back=None):
    """Lets the process take that much more memory, until the limits given back hold again."""
    try:
        import resource
        if more is None:
            return back and resource.setrlimit(resource.RLIMIT_AS, back)
        was = resource.getrlimit(resource.RLIMIT_AS)
        with io.open('/proc/self/statm') as f:
            resource.setrlimit(resource.RLIMIT_AS, (int(f.read().split()[0]) * resource.getpagesize() + more, was[1]))
        return was
    except (ImportError, ValueError, EnvironmentError):
        return None     # Java limits its own


def run(s, o):
    with mkworld(s) as w:
        w.fs.mkdirs('/sim/in')
        things = [Thing(w, k, f) for k, f in enumerate(s['files'])]
        proc = conc.process(w)
        did = []
        bad = {}
        for k, op in enumerate(s['ops']):
            t = things[op['n'] % len(things)]
            w.fs.begin(k)
            o.steps += 1
            if op['do'] == 'damage':
                data = damage(t.good, op['how'])
                if t.kind != 'midi' and op['how'][0][3] < 0.9:
                    # still text
                    data = bytes(bytearray(c & 127 for c in bytearray(data)))
                if t.kind == 'midi':
                    data = smalllengths(data)
                w.fs.put(w.fs.norm(t.path), data)
                words = '%s damaged (%s)' % (t.kind, ', '.join(h[0] for h in op['how']))
                into = before = None
                if t.kind == 'style':
                    # a style that is in use, of the same kind
                    into = ops.mkstyle(w.api, t.f['style'])
                    before = ops.cstyle(into)
                it = Interrupter(limit=400 * len(data) + 60000)
                got = None
                limit = room(1 << 30)
                try:
                    got = it(t.load, w, into)
                    how = 'loaded'
                except NOMEM:
                    o.bad('memory', '%s: %d bytes fill the memory' % (words, len(data)))
                    return
                except Exception as e:
                    if type(e).__name__ == 'Stuck':
                        o.bad('hang', '%s: no end after %d steps for %d bytes' % (words, it.n, len(data)))
                        return
                    how = type(e).__name__
                finally:
                    room(None, limit)
                w.fs.end()
                leaks = [h.path for h in w.fs.leaked(k)]
                if leaks:
                    o.bad('left open', '%s: ended (%s) with %s open' % (words, how, leaks))
                    return
                o.fired({op['how'][0][0]: 1})
                o.nontrivial = True
                o.sigs.append(mix(t.kind, op['how'][0][0], int(op['how'][0][1] * 32), how))
                if t.kind == 'midi':
                    v = midi(data, t.f['file']['name'])
                    o.probe('midi still valid' if v else 'midi invalid, ' + ('loaded' if how == 'loaded' else 'raised'))
                    b = broken(data)
                    if b and how == 'loaded':
                        o.bad('accepted', '%s: the file is broken (%s), but was loaded' % (words, b))
                        return
                    if b and not v:
                        o.probe('midi broken')
                    if v and b:
                        raise RuntimeError('the two readers of this check differ: ' + b)
                    if v and how != 'loaded':
                        o.bad('refused', '%s: the file is still valid, but loading it raises %s' % (words, how))
                        return
                    if v:
                        d = c08.compare(v[0], v[1], v[2], got)
                        if d:
                            o.bad('other than it says', '%s: the file is still valid, but the pattern is another: %s' % (words, '; '.join(d)))
                            return
                elif t.kind == 'json':
                    v = jsonfile(data)
                    o.probe('json %s, %s' % (v[0], 'loaded' if how == 'loaded' else 'raised'))
                    if v[0] == 'is' and how != 'loaded':
                        o.bad('refused', '%s: the file is still valid, but loading it raises %s' % (words, how))
                        return
                    if v[0] == 'bad' and how == 'loaded':
                        o.bad('accepted', '%s: the file is not valid any more, but was loaded' % words)
                        return
                    if v[0] == 'is':
                        d = lib.differ(v[1], lib.snap(got))
                        if d:
                            o.bad('other than it says', '%s: the file is still valid, but the pattern is another: %s' % (words, '; '.join(d)))
                            return
                else:
                    v = stylefile(data)
                    o.probe('style %s, %s' % (v[0], 'loaded' if how == 'loaded' else 'raised'))
                    if v[0] == 'is' and how != 'loaded':
                        o.bad('refused', '%s: the file is still valid, but loading it raises %s' % (words, how))
                        return
                    if v[0] == 'bad' and how == 'loaded':
                        o.bad('accepted', '%s: the file is not valid any more, but was loaded' % words)
                        return
                    d = lib.differ(v[1], ops.cstyle(got)) if v[0] == 'is' else None
                    if d:
                        o.bad('other than it says', '%s: the file is still valid, but the style is another: %s' % (words, '; '.join(d)))
                        return
                if t.kind == 'style' and how != 'loaded':
                    d = lib.differ(before, ops.cstyle(into))
                    if d:
                        o.bad('style changed', '%s: the load raised %s, but changed the style: %s' % (words, how, '; '.join(d)))
                        return
                o.note(words, how, lib.digest(t.look(got)) if got is not None and how == 'loaded' else '')
                bad[t.path] = True
            elif op['do'] == 'good':
                w.fs.put(w.fs.norm(t.path), t.good)
                words = '%s good' % t.kind
                d = lib.differ(t.exp, t.look(t.load(w)))
                w.fs.end()
                if d:
                    o.bad('later load', 'a good %s file, after %s: %s' % (t.kind, ', '.join(did), '; '.join(d)))
                    return
                bad.pop(t.path, None)
            else:
                # the whole folder: the damaged ones cannot come as anything but themselves
                for x in things:
                    w.fs.put(w.fs.norm(x.path), x.good)
                words = 'collection'
                l = w.api.gsio.fromMidiCollection('/sim/in/*.mid')
                w.fs.end()
                want = sorted([x.exp for x in things if x.kind == 'midi'], key=lib.digest)
                d = lib.differ(want, sorted([lib.snap(p, True) for p in l], key=lib.digest))
                if d:
                    o.bad('later load', 'the folder, after %s: %s' % (', '.join(did), '; '.join(d)))
                    return
            did.append(words)
            p2 = conc.process(w)
            d = [x for x in sorted(proc) if p2[x] != proc[x]]
            if d:
                o.bad('process state', '%s changed the %s' % (words, ', '.join(d)))
                return
        for t in things:
            w.fs.put(w.fs.norm(t.path), t.good)
            d = lib.differ(t.exp, t.look(t.load(w)))
            if d:
                o.bad('later load', 'a good %s file, after %s: %s' % (t.kind, ', '.join(did), '; '.join(d)))
                return
