# -*- coding: utf-8 -*-
"""
A small executable model of gsapi's patterns, written from their documentation: plain data, no gsapi code.

A pattern is a dict; an event a list [start, duration, pitch, velocity, tag]; a tag a string or a tuple of strings. Times are dyadic, so
that arithmetic on them is exact and the order of operations does not matter.
"""
from __future__ import absolute_import, division, print_function

import math

from simfs import PY3, text_types

NAMES = 'C C# D Eb E F F# G Ab A Bb B'.split()


def pattern(spec):
    return {'name': spec['name'], 'duration': spec['duration'], 'bpm': spec['bpm'], 'ts': tuple(spec['ts']), 'key': spec.get('key'),
            'start': spec.get('start', 0), 'res': spec.get('res', 960), 'path': spec.get('path'),
            'events': [[e[0], e[1], e[2], e[3], mtag(e[4])] for e in spec['events']], 'vp': {}}


def mtag(t):
    return tuple(mtag(x) for x in t[1:]) if isinstance(t, list) else t


def spec(m):
    """The model as data to build a pattern from (tags as in a scenario)."""
    return dict(m, ts=list(m['ts']), events=[e[:4] + [stag(e[4])] for e in m['events']], vps=[])


def stag(t):
    return ['t'] + [stag(x) for x in t] if isinstance(t, tuple) else t


def copy(m):
    return dict(m, events=[list(e) for e in m['events']], vp=dict((k, copy(v)) for k, v in m['vp'].items()))


def bare(m):
    return {'name': m['name'], 'duration': m['duration'], 'bpm': m['bpm'], 'ts': m['ts'], 'key': m['key'], 'start': m['start'], 'res': m['res'],
            'path': m['path'], 'events': [], 'vp': {}}


def end(e):
    return e[0] + e[1]


def sort(m):
    m['events'].sort(key=lambda e: e[0])


def last(m):
    return max(end(e) for e in m['events']) if m['events'] else None


def part(x, tag):
    """The tag is x, or has it as a part."""
    return tag == x or (isinstance(tag, tuple) and x in tag)


def only(m, f):
    r = bare(m)
    r['events'] = [list(e) for e in m['events'] if f(e)]
    return r


# ---- looking ------------------------------------------------------------------------------
def active(m, t):
    return [e for e in m['events'] if e[0] <= t < end(e)]


def starting(m, t, tol):
    return [e for e in m['events'] if e[0] <= t <= e[0] + tol]


def identical(m, n, every):
    if not m['events']:
        return []
    x = m['events'][n % len(m['events'])]
    if every:
        return [e for e in m['events'] if e[4] == x[4]]
    # one of the tags of the event is the tag of the other, or one of its tags
    mine = lambda e: e[4] if isinstance(e[4], tuple) else (e[4],)
    return [e for e in m['events'] if any(part(y, x[4]) for y in mine(e))]


def tslice(m, t, length, trim):
    r = bare(m)
    r['start'], r['duration'] = t, length
    for e in m['events']:
        if t <= e[0] < t + length:
            r['events'].append([e[0] - t, min(e[1], t + length - e[0]) if trim else e[1]] + e[2:])
    return r


def split(m, length, suppress):
    n = int(math.ceil(m['duration'] / length))
    pieces = {}
    for e in m['events']:
        k = int(math.floor(e[0] / length))
        t = e[0]
        while True:
            pieces.setdefault(k, []).append([t - k * length, min(end(e), (k + 1) * length) - t] + e[2:])
            if end(e) <= (k + 1) * length:
                break
            k += 1
            t = k * length
    out = []
    for k in range(n):
        if k in pieces:
            r = bare(m)
            r['name'] = '%s_%d' % (m['name'], k)
            r['start'], r['duration'] = k * length, length
            r['events'] = pieces[k]
            sort(r)
            out.append(r)
        elif not suppress:
            out.append(None)
    return out


def cut(e, step):
    return [[e[0] + i * step, step] + e[2:] for i in range(max(1, int(e[1] / step)))]


# ---- changing -----------------------------------------------------------------------------
def add(m, e):
    m['events'].append(e)
    tolast(m, True)


def tolast(m, bigger):
    sort(m)
    x = last(m)
    if x and (x > m['duration'] or not bigger):
        m['duration'] = x


def tobar(m):
    m['duration'] = -(-m['duration'] // m['ts'][0]) * m['ts'][0]


def align(m, step):
    ev = []
    for e in m['events']:
        # a silence of several steps is one of a step in each
        for k in range(max(1, int(e[1] / step)) if e[4] == 'silence' else 1):
            t = math.floor((e[0] + k * step) / step + 0.5) * step
            if t < m['duration']:
                ev.append([t, step] + e[2:])
    m['events'] = ev
    overlap(m, False)


def overlap(m, pitch):
    """In each voice: of notes that begin together the last stays, and a note ends where the next begins."""
    sort(m)
    key = 2 if pitch else 4
    out = []
    for i, e in enumerate(m['events']):
        nxt = [x for x in m['events'][i + 1:] if x[key] == e[key]][:1]
        if nxt and nxt[0][0] < end(e):
            if nxt[0][0] == e[0]:
                continue
            e = [e[0], nxt[0][0] - e[0]] + e[2:]
        out.append(e)
    m['events'] = out


def legato(m, pitch):
    key = 2 if pitch else 4
    for v in set(e[key] for e in m['events']):
        voice = sorted((e for e in m['events'] if e[key] == v), key=lambda e: e[0])
        for a, b in zip(voice, voice[1:]):
            a[1] = max(a[1], b[0] - a[0])
        z = voice[-1]
        z[1] = max(z[1], m['duration'] - z[0])


def previous(m):
    on = sorted(set(e[0] for e in m['events'])) + [m['duration']]
    for e in m['events']:
        e[1] = on[on.index(e[0]) + 1] - e[0]


def silences(events, duration, most):
    """The events of a voice, in order, with silences in the gaps."""
    out = []
    off = 0

    def gap(a, b):
        while most > 0 and b - a > most:
            out.append([a, most, 0, 0, 'silence'])
            a += most
        if b > a:
            out.append([a, b - a, 0, 0, 'silence'])
    for e in events:
        gap(off, e[0])
        out.append(e)
        off = max(off, end(e))
    gap(off, duration)
    return out


def fill(m, most, per):
    sort(m)
    if not per:
        m['events'] = silences(m['events'], m['duration'], most)
        return
    tags = []
    for e in m['events']:
        if e[4] not in tags:
            tags.append(e[4])
    m['events'] = sum([silences([e for e in m['events'] if e[4] == t], m['duration'], most) for t in tags], [])
    m['anyorder'] = True


def quantize(m, step, on, dur):
    for e in m['events']:
        if on:
            k = math.floor(e[0] / step)
            e[0] = (k + (1 if e[0] / step - k > 0.5 else 0)) * step
        if dur:
            k = math.floor(e[1] / step)
            e[1] = max(1, k + (1 if e[1] / step - k >= 0.5 else 0)) * step


def remove(m, x):
    m['events'] = [e for e in m['events'] if e != x]


def rmtags(m, tags):
    m['events'] = [e for e in m['events'] if not any(part(t, e[4]) for t in tags)]


def stretch(m, ratio):
    m['duration'] *= ratio
    for e in m['events']:
        e[0] *= ratio
        e[1] *= ratio


def transpose(m, by):
    for e in m['events']:
        e[2] += by
        e[4] = '%s%d' % (NAMES[e[2] % 12], e[2] // 12 - 1)


# ---- descriptors ----------------------------------------------------------------------------
def density(m, ignored=('silence',), included=None):
    return sum(e[1] for e in m['events'] if e[4] not in ignored and (not included or e[4] in included))


def ntags(m, ignored=('silence',), included=None):
    return len(set(e[4] for e in m['events'] if e[4] not in ignored and (not included or e[4] in included)))


def syncopation(m):
    """Steps that sound before steps that do not, weighed by the difference of their places in the metre."""
    n = int(math.ceil(m['duration']))
    w = [0] * n
    parts = 1
    while parts <= n:
        for k in range(parts):
            w[k * (n // parts)] += 1
        parts *= 2
    s = [bool(active(m, t)) for t in range(n)]
    return sum(abs(w[(t + 1) % n] - w[t]) for t in range(n) if s[t] and not s[(t + 1) % n])


def chords(m, types):
    """(the names of all chords that fit best, their score): sounding time in the chord's notes (0.8 each, the root 1) less that outside, and less
    half the duration for each note of the chord that does not sound."""
    chroma = [0] * 12
    for e in m['events']:
        if e[4] != 'silence':
            chroma[e[2] % 12] += e[1]
    if not any(c > 0 for c in chroma):
        return None
    score = {}
    for name, notes in types.items():
        weight = [-1] * 12
        weight[0] = 1
        for x in notes:
            weight[x % 12] = 0.8
        for root in range(12):
            v = 0
            for c in range(12):
                x = weight[(c - root) % 12]
                v += chroma[c] * x
                if x > 0 and chroma[c] <= 0:
                    v -= m['duration'] / 2.0
            score[(NAMES[root], name)] = v
    return score


VALUE = {'density': density, 'tags': ntags}


def viewpoint(m, name, desc, how):
    v = bare(m)
    v['name'] = name
    if how == 'all':
        parts = [m]
    elif how == 'perEvent':
        sort(m)
        parts = []
        for t in sorted(set(e[0] for e in m['events'])):
            p = bare(m)
            p['start'] = t
            p['events'] = active(m, t)
            p['duration'] = max([end(e) - t for e in p['events']] or [0])
            parts.append(p)
    else:
        parts = split(m, how, True)
    v['events'] = [[p['start'], p['duration'], 60, 80, VALUE[desc](p)] for p in parts if p['events']]
    m['vp'][name] = v


# ---- comparing --------------------------------------------------------------------------------
def cnum(x):
    return None if x is None else float(x)


def ctag(t):
    if isinstance(t, tuple):
        return ['t'] + [ctag(x) for x in t]
    if isinstance(t, text_types):
        return t if PY3 or not isinstance(t, str) else t.decode('utf-8')
    return ['n', cnum(t)]


def cev(e):
    return [cnum(e[0]), cnum(e[1]), cnum(e[2]), cnum(e[3]), ctag(e[4])]


def canon(m):
    if m is None:
        return None
    return {'name': ctag(m['name']), 'duration': cnum(m['duration']), 'bpm': cnum(m['bpm']), 'ts': [cnum(x) for x in m['ts']],
            'key': m['key'] if m['key'] is None else ctag(m['key']), 'start': cnum(m['start']), 'res': cnum(m['res']),
            'path': m['path'] if m['path'] is None else ctag(m['path']), 'events': [cev(e) for e in m['events']],
            'vp': dict((ctag(k), vpcanon(v)) for k, v in m['vp'].items())}


def vpcanon(m):
    r = canon(m)
    for k in ('start', 'res', 'path', 'key', 'vp'):
        r.pop(k)
    return r


def ofevent(e):
    return [e.startTime, e.duration, e.pitch, e.velocity, tuple(e.tag) if isinstance(e.tag, tuple) else e.tag]


def of(p):
    """A real pattern as one of the model's."""
    if p is None:
        return None
    return {'name': p.name, 'duration': p.duration, 'bpm': p.bpm, 'ts': tuple(p.timeSignature), 'key': p.key, 'start': p.startTime,
            'res': p.resolution, 'path': p.originFilePath, 'events': [ofevent(e) for e in p.events],
            'vp': dict((k, of(v)) for k, v in p.viewpoints.items())}
