# -*- coding: utf-8 -*-
"""Patterns as data: generation, construction, canonical snapshots; MIDI by an independent codec."""
from __future__ import absolute_import, division, print_function

import hashlib
import json
import struct

from simfs import PY3, text_types


# ---- canonical values -------------------------------------------------------------
def text(s):
    return s if PY3 or not isinstance(s, str) else s.decode('utf-8', 'replace')


def ctag(t):
    """A tag: equal tags give equal results, whatever the run time."""
    if isinstance(t, text_types):
        return ['s', text(t)]
    if t is None:
        return ['0']
    if isinstance(t, tuple):
        return ['t'] + [ctag(x) for x in t]
    if isinstance(t, list):
        return ['l'] + [ctag(x) for x in t]
    if isinstance(t, (int, float)) or hasattr(t, 'bit_length'):
        return ['n', num(t)]
    if isinstance(t, dict):
        return ['d'] + sorted([ctag(k), ctag(v)] for k, v in t.items())
    return ['o', type(t).__name__]


def num(x):
    if x is None:
        return None
    if isinstance(x, bool):
        return repr(x)
    try:
        return repr(float(x))
    except (TypeError, ValueError):
        return 'not a number: %s' % type(x).__name__


def cevent(e):
    return [num(e.startTime), num(e.duration), num(e.pitch), num(e.velocity), ctag(e.tag)]


def snap(p, full=False, depth=0):
    """All of a pattern; full: also what JSON does not keep."""
    if p is None:
        return None
    if depth > 6:
        return '...'
    r = {'name': ctag(p.name), 'duration': num(p.duration), 'bpm': num(p.bpm),
         'ts': ctag(tuple(p.timeSignature)) if isinstance(p.timeSignature, (list, tuple)) else ctag(p.timeSignature),
         'events': [cevent(e) for e in p.events],
         'vp': dict((text(k), snap(v, full, depth + 1)) for k, v in p.viewpoints.items())}
    if full:
        r['key'] = ctag(p.key)
        r['start'] = num(p.startTime)
        r['res'] = num(p.resolution)
        r['path'] = ctag(p.originFilePath)
        r['origin'] = None if p.originPattern is None else ctag(p.originPattern.name)
        if depth == 0 and p.originPattern is not None:
            r['of'] = snap(p.originPattern, False, 1)
        r['eo'] = [None if e.originPattern is None else
                   (snap(e.originPattern, False, 6 - 1) if depth < 2 else 1) for e in p.events]
    return r


def digest(x):
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode('utf-8')).hexdigest()[:16]


def differ(a, b, path='', out=None):
    """Where two canonical values differ, in words."""
    if out is None:
        out = []
    if len(out) > 3:
        return out
    if type(a) != type(b) and not (isinstance(a, text_types) and isinstance(b, text_types)):
        out.append('%s: %s instead of %s' % (path, short(b), short(a)))
    elif isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                out.append('%s.%s only in one' % (path, k))
            else:
                differ(a[k], b[k], path + '.' + k, out)
    elif isinstance(a, list):
        if len(a) != len(b):
            out.append('%s: %d items instead of %d: %s instead of %s' % (path, len(b), len(a), short(b), short(a)))
        else:
            for i in range(len(a)):
                differ(a[i], b[i], '%s[%d]' % (path, i), out)
    elif a != b:
        out.append('%s: %s instead of %s' % (path, short(b), short(a)))
    return out


def short(x):
    s = json.dumps(x, sort_keys=True) if not isinstance(x, text_types) else x
    return s if len(s) < 160 else s[:150] + '...'


# ---- building from data ---------------------------------------------------------------
def mktag(api, t):
    """['t', ...] is a tuple, ['c', root, type] a chord tag, everything else itself."""
    if isinstance(t, list):
        if t[0] == 'c':
            return api.gsdescriptors.ChordTag((native(t[1]), native(t[2])))
        return tuple(mktag(api, x) for x in t[1:])
    return native(t)


def native(s):
    """JSON text becomes str in Python 2, as a literal would be."""
    if not PY3 and isinstance(s, unicode):
        try:
            return s.encode('ascii')
        except UnicodeError:
            return s
    return s


def build(api, spec):
    p = api.Pattern()
    p.name = native(spec['name'])
    p.duration = spec['duration']
    p.bpm = spec.get('bpm', 120)
    p.timeSignature = tuple(spec.get('ts', (4, 4)))
    if spec.get('key'):
        p.key = native(spec['key'])
    if 'res' in spec:
        p.resolution = spec['res']
    if 'start' in spec:
        p.startTime = spec['start']
    if 'path' in spec:
        p.originFilePath = native(spec['path'])
    p.events = [api.Event(startTime=s, duration=d, pitch=pi, velocity=v, tag=mktag(api, t))
                for s, d, pi, v, t in spec['events']]
    for vp in spec.get('vps', []):
        addvp(api, p, vp)
    return p


def descriptor(api, name):
    g = api.gsdescriptors
    return {'chord': lambda: g.Chord(), 'chordmm': lambda: g.Chord(forceMajMin=True), 'density': lambda: g.Density(),
            'tags': lambda: g.NumberOfTags(), 'sync': lambda: g.Syncopation()}[name]()


def addvp(api, p, vp):
    """vp: {'name','desc','slice','vps'}; a hand made one has 'events'."""
    if 'events' in vp:
        v = p.copyWithoutEvents()
        v.name = native(vp['name'])
        v.originPattern = p
        v.events = [api.Event(startTime=s, duration=d, pitch=pi, velocity=ve, tag=mktag(api, t))
                    for s, d, pi, ve, t in vp['events']]
        p.viewpoints[native(vp['name'])] = v
    elif vp['desc'] is None:
        v = p.generateViewpoint('chords')
    else:
        v = p.generateViewpoint(native(vp['name']), descriptor(api, vp['desc']), vp['slice'])
    for x in vp.get('vps', []):
        addvp(api, v, x)


# ---- generating -----------------------------------------------------------------------------
NAMES = ['a', 'kick', 'loop 1', 'take.2', 'x.json', 'my.mid.pattern', 'drum-loop_01', 'A' * 40, 'p#1', "it's", '7',
         'name.pickle', 'tests', '(x)', 'UPPER', ' lead', 'trail ', 'upper', '.hidden', '-dash', 'tab\tbed', 'star*', 'x..y', 'dot.', '~',
         '100%', '$HOME', 'a+b, c; d', 'B' * 120]
UNAMES = [u'caf\xe9', u'\u30ea\u30ba\u30e0', u'na\xefve loop']
TAGS = ['Kick', 'Snare', 'Chh', 'Ohh', 'silence', 'C4', 'Eb2', 'F#-1', 'a/b', 'two words', 'q"uote', 'back\\slash', '',
        'x', 'low Congas', 'tab\tnew\nline', '__tuple__', 'tagsIdx']
UTAGS = [u'\xe9t\xe9', u'\u592a\u9f13', u'\U0001f941']


def gtime(r, style):
    if style == 'grid':
        return r.rint(0, 64) * 0.25
    if style == 'int':
        return r.rint(0, 40)
    if style == 'big':
        return r.rint(0, 4000) * 0.5
    if style == 'neg':
        return r.rint(-8, 20) * 0.5
    if style == 'fine':
        return r.rint(0, 100000) / 960.0
    return r.float() * r.choice([1, 16, 1000.0])


def gdur(r, style):
    if style in ('grid', 'int', 'neg', 'big'):
        return r.choice([0.25, 0.5, 1, 2, 0.125, 4, 1.5, 0, 3])
    if style == 'fine':
        return r.rint(2, 5000) / 960.0
    return r.float() * 3


def gtag(r, mode, uni):
    pool = TAGS + (UTAGS if uni else [])
    k = r.weighted([(5, 's'), (3, 't1'), (3, 't2'), (1, 't0'), (1, 'n'), (1, 'c')] +
                   ([(2, 'nest')] if mode == 'nested' else []))
    if k == 's':
        return r.choice(pool)
    if k == 't0':
        return ['t']
    if k == 't1':
        return ['t', r.choice(pool)]
    if k == 't2':
        return ['t'] + [r.choice(pool) for _ in range(r.rint(2, 4))]
    if k == 'n':
        return r.choice([0, 1, 7, 0.5, 12.25, -3])
    if k == 'c':
        return ['c', r.choice(['C', 'F#', 'Bb']), r.choice(['maj', 'min7', 'sus4'])]
    return ['t', ['t', r.choice(pool), r.choice(pool)], r.choice(pool), ['t', ['t', r.choice(pool)], 3]]


def gpattern(r, uni=False, mode='plain', maxev=12, big=False):
    style = r.choice(['grid', 'grid', 'int', 'float', 'fine', 'neg', 'big'])
    n = r.weighted([(1, 0), (2, 1), (4, r.rint(2, 5)), (4, r.rint(3, maxev))])
    if big:
        n = r.rint(150, 420)
    few = [gtag(r, mode, uni) for _ in range(r.rint(1, 4))] if r.chance(0.7) else None
    ev = []
    t = 0
    for i in range(n):
        ev.append([gtime(r, style), gdur(r, style), r.weighted([(6, r.rint(24, 96)), (1, 0), (1, 127)]),
                   r.weighted([(6, r.rint(1, 127)), (1, 0), (1, 127)]), r.choice(few) if few else gtag(r, mode, uni)])
    if r.chance(0.6):
        ev.sort(key=lambda e: e[0])
    spec = {'name': r.choice(NAMES + (UNAMES if uni else [])),
            'duration': r.weighted([(4, r.rint(1, 64)), (2, r.rint(1, 999) / 8.0), (1, 0), (1, r.float() * 50)]),
            'bpm': r.weighted([(3, 120), (2, r.rint(20, 300)), (2, r.rint(200, 30000) / 100.0), (1, r.float() * 200 + 20)]),
            'ts': [r.choice([4, 3, 2, 5, 6, 7, 12, 1, 13]), r.choice([4, 4, 8, 2, 16])],
            'events': ev}
    return spec


def gvps(r, spec, depth=0):
    """Viewpoints that this pattern can have."""
    if not spec['events']:
        return []
    out = []
    # the descriptors take the length of tags
    numeric = any(isinstance(e[4], (int, float)) for e in spec['events'])
    for i in range(r.rint(1, 2)):
        if numeric or r.chance(0.3):
            v = {'name': r.choice(['hand', 'vp', 'form']),
                 'events': [[k, 1, 60, 80, gtag(r, 'plain', False)] for k in range(r.rint(0, 3))]}
        else:
            desc, sl = r.choice([(None, 4), ('chord', 4), ('chordmm', 2), ('density', 1), ('tags', 2), ('density', 'all'),
                                 ('chord', 'perEvent'), ('tags', 'perEvent'), ('chord', 'all')])
            v = {'name': 'chords' if desc is None else r.choice(['v1', 'harmony', 'dens']), 'desc': desc, 'slice': sl}
        if depth < 1 and r.chance(0.3):
            v['vps'] = [{'name': r.choice(['inner', 'v1']), 'events': [[0, 2, 60, 80, 'x']]}]
        if v['name'] not in [o['name'] for o in out]:
            out.append(v)
    return out


KEYS = ['C', 'G', 'Am', 'Cb', 'C#m', 'F#', 'Bb', 'Ebm', None, None]
KEYS = [k for k in KEYS if k is None or k.rstrip('m') in
        ('Cb', 'Gb', 'Db', 'Ab', 'Eb', 'Bb', 'F', 'C', 'G', 'D', 'A', 'E', 'B', 'F#', 'C#')] + \
       ['Gb', 'Dbm', 'Abm', 'Eb', 'F', 'Dm', 'A', 'Em', 'B', 'C#', 'Gbm', 'Cbm']


def gmidipattern(r, uni=False, big=False, maxev=14, short=False):
    """A pattern that MIDI can represent: notes of one pitch do not overlap."""
    res = r.choice([960, 960, 480, 220, 96, 120, 384, 1, 24, 15360, 32767])
    if short:
        res = r.choice([960, 480, 96, 220])
    if r.chance(0.4):
        ticky = True
    else:
        ticky = False
    unit = 1.0 / res
    tiny = not short and r.chance(0.2)
    nv = r.rint(1, 5)
    pitches = r.sample(list(range(0, 128)), nv)
    ev = []
    n = r.rint(60, 160) if big else r.rint(0 if r.chance(0.1) else 1, maxev)
    pos = dict((p, r.choice([0, 0, 1, r.rint(0, 300)]) * 1.0) for p in pitches)      # in ticks
    for i in range(n):
        p = r.choice(pitches)
        gap = r.weighted([(5, 0), (3, r.rint(0, 3 * res)), (1, r.choice([127, 128, 129, 16383, 16384, 16385])),
                          (0.0 if short else 0.15, r.choice([2097151, 2097152, 2097153])), (1, 1)])
        d = r.weighted([(4, max(2, res // r.choice([1, 2, 4, 3]))), (3, r.rint(2, 3 * res + 2)),
                        (1, r.choice([2, 3, 127, 128, 129, 16383, 16384])), (0.0 if short else 0.1, 2097152)])
        d = max(d, res * 0.0004)        # gsapi takes a note of 0.0001 beats or less for an open one
        if tiny and r.chance(0.5):
            # shorter than a tick, or two
            d = 1 if ticky else r.choice([r.float(), r.float() * 2, 0.4, 0.01])
        elif not ticky:
            d += r.float() * 0.9
        if not ticky:
            if gap:
                gap += r.float() * 0.9
        s = pos[p] + gap
        ev.append([s, d, p, r.weighted([(6, r.rint(1, 127)), (1, 1), (1, 127)]), r.choice(['C4', 'Kick', ['t', 'a']])])
        pos[p] = s + d
    out = []
    end = {}
    for s, d, p, v, t in ev:
        # in beats; consecutive notes touch exactly when they did in ticks
        a = s * unit
        if p in end and abs(a - end[p]) < 1e-9 * max(1, a):
            a = end[p]
        b = d * unit
        end[p] = a + b
        out.append([a, b, p, v, t])
    if r.chance(0.5):
        out = r.shuffled(out)
    else:
        out.sort(key=lambda e: e[0])
    last = max([e[0] + e[1] for e in out] or [0])
    spec = {'name': r.choice([x for x in NAMES] + (UNAMES if uni else [])),
            'duration': r.weighted([(3, float(int(last) + 1)), (2, last + r.float() * 9), (2, r.float() * last), (1, r.rint(1, 64))]),
            'bpm': r.weighted([(3, 120), (2, r.rint(4, 300)), (2, r.rint(400, 99999) / 100.0), (1, r.float() * 200 + 20)]),
            'ts': [r.choice([4, 3, 2, 5, 6, 7, 12, 1, 255]), r.choice([4, 4, 8, 2, 16, 1, 32, 64])],
            'key': r.choice(KEYS), 'res': res, 'events': out}
    return spec


# ---- MIDI, written independently of gsapi ----------------------------------------------------
def varlen(n):
    out = [n & 0x7f]
    n >>= 7
    while n:
        out.append((n & 0x7f) | 0x80)
        n >>= 7
    return bytes(bytearray(reversed(out)))


class BadMidi(Exception):
    pass


def decode_midi(data):
    """A strict reader of standard MIDI files: {'format','res','tracks': [[(tick, kind, ...)]]}."""
    b = bytearray(data)
    if bytes(b[:4]) != b'MThd' or len(b) < 14:
        raise BadMidi('no header')
    hl, fmt, nt, res = struct.unpack('>LHHH', bytes(b[4:14]))
    if hl != 6:
        raise BadMidi('header length %d' % hl)
    i = 14
    tracks = []
    for t in range(nt):
        if bytes(b[i:i + 4]) != b'MTrk' or i + 8 > len(b):
            raise BadMidi('track %d does not start' % t)
        n = struct.unpack('>L', bytes(b[i + 4:i + 8]))[0]
        i += 8
        if i + n > len(b):
            raise BadMidi('track %d is cut' % t)
        tracks.append(_track(b[i:i + n]))
        i += n
    if i != len(b):
        raise BadMidi('%d bytes after the last track' % (len(b) - i))
    return {'format': fmt, 'res': res, 'tracks': tracks}


def _track(b):
    pos = [0]

    def byte():
        if pos[0] >= len(b):
            raise BadMidi('track ends inside an event')
        pos[0] += 1
        return b[pos[0] - 1]

    def vl():
        v = 0
        for k in range(5):
            c = byte()
            v = (v << 7) | (c & 0x7f)
            if not c & 0x80:
                return v
        raise BadMidi('variable length number too long')

    def some(n):
        if n > len(b) - pos[0]:
            raise BadMidi('track ends inside an event')
        return [byte() for _ in range(n)]
    out = []
    tick = 0
    status = None
    ended = False
    while pos[0] < len(b):
        if ended:
            raise BadMidi('events after the end of track')
        tick += vl()
        s = byte()
        if s == 0xff:
            c = byte()
            d = some(vl())
            out.append((tick, 'meta', c, d))
            status = None
            ended = c == 0x2f
        elif s in (0xf0, 0xf7):
            d = some(vl())
            out.append((tick, 'sysex', s, d))
            status = None
        else:
            if s > 0xf0:
                raise BadMidi('status %x' % s)
            if s & 0x80:
                status = s
                first = byte()
            else:
                if status is None:
                    raise BadMidi('running status without status')
                first = s
            k = status >> 4
            d = [first] if k in (0xc, 0xd) else [first, byte()]
            if any(x > 127 for x in d):
                raise BadMidi('data byte over 127')
            out.append((tick, 'ch', k, status & 15, d))
    if not ended:
        raise BadMidi('no end of track')
    return out


def midi_notes(track):
    """[(on tick, off tick, pitch, velocity, channel)], first in first out per pitch and channel."""
    open_, out = {}, []
    for e in track:
        if e[1] != 'ch' or e[2] not in (8, 9):
            continue
        tick, _, k, ch, (p, v) = e
        if k == 9 and v:
            open_.setdefault((ch, p), []).append((tick, v))
        else:
            l = open_.get((ch, p))
            if not l:
                raise BadMidi('note-off without note-on: tick %d pitch %d' % (tick, p))
            s, ve = l.pop(0)
            out.append((s, tick, p, ve, ch))
    if any(open_.values()):
        raise BadMidi('a note is never released')
    return sorted(out, key=lambda x: x[:3])
