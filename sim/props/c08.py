# -*- coding: utf-8 -*-
"""C08: MIDI files made by an independent encoder, imported in histories with chunked reads and failing reads in between."""
from __future__ import absolute_import, division, print_function

import struct

import lib
import model
import ops
from props.history import genfs, mkworld
from prng import mix
from simfs import PY3

RUNS = {'quick': 10000, 'thorough': 150000}
JRUNS = {'quick': 150, 'thorough': 3000}
RULE = ('a run imports 1 to 4 generated MIDI files (possibly the same again) with mappings that it shares between imports, with '
        'short reads and with failing imports in between; non-trivial: a file with notes was imported; distinct: scenario differs')
MEASURE = 'shape of the file (format, tracks, kinds of messages, running status) x kind of mapping x track selection x read sizes'
REAL = ['gsapi.gsio', 'gsapi.midiio', 'gsapi.gspattern', 'io buffering']
STUB = ['disk: in-memory file system (sim/simfs.py)', 'the writer of the files: an independent encoder']
ASSUMPTIONS = ['metrical divisions (no SMPTE), at most one tempo, time signature and key']

TRACKNAMES = ['drums', 'bass', 'Kick', 'Snare drum', 'Lead Synth', 'x', 'Kick and Snare', 'KICK', 'piano 1', 'Hat']
MAPS = [None, None, None, 'simpleDrumMap', 'verySimpleDrumMap', {'pitchName': ['do', 'di', 're', 'ri', 'mi', 'fa', 'fi', 'so', 'si', 'la', 'li', 'ti']},
        {'Kick': 36, 'Snare': [38, 40], 'Hat': [[42, '*'], [44, 1]]},
        {'Low': [[36, 1], 35], 'Any': [['*', 2]], 'Kick': [36]}, {'x': [60, 61, 62], 'y': 62},
        {'ch0': [['*', 0]], 'ch1': [['*', 1]], 'ch9': [['*', 9]]}, {'all': [['*', '*']]}, {'one': [[60, 3]], 'two': [[60, 4]]}, {}]


def gfile(r, m):
    res = r.choice([96, 120, 220, 384, 480, 960, 24, 1, 32767, 15360])
    fmt = r.choice([0, 1, 1, 1])
    nt = 1 if fmt == 0 else r.weighted([(3, 1), (3, 2), (2, r.rint(3, 5))])
    f = {'name': r.choice(['in.mid', 'x.y.mid', 'song', 'A b.mid']), 'res': res, 'format': fmt, 'tracks': [],
         'header': r.weighted([(8, 0), (1, 2), (1, 10)])}
    f['bpm_us'] = r.choice([None, 500000, 461538, 1, 16777215, 300000 + r.below(500000)])
    f['ts'] = r.choice([None, [4, 4], [3, 4], [6, 8], [7, 16], [1, 1], [255, 64], [5, 2]])
    f['key'] = r.choice([None, None, [0, 0], [-7, 0], [7, 1], [-3, 1], [2, 0], [-1, 0]])
    f['metatrack'] = r.below(nt)
    pool = [36, 38, 40, 42, 44, 35, 60, 61, 62, 0, 127] if r.chance(0.7) else [r.below(128) for _ in range(5)]
    maxn = 25 if r.chance(0.9) else 120
    for t in range(nt):
        ch = r.sample([0, 1, 2, 3, 4, 9, 15], r.rint(1, 3))
        notes = []
        end = {}
        for k in range(r.weighted([(1, 0), (5, r.rint(1, 8)), (2, r.rint(3, maxn))])):
            p = r.choice(pool)
            # notes that a reader cannot tell apart do not overlap: those of one pitch on one channel
            c = r.choice(ch)
            s = end.get((p, c), 0) + r.weighted([(4, 0), (4, r.below(4 * res + 2)), (1, r.choice([127, 128, 16383, 16384]))])
            d = r.weighted([(4, max(1, res // r.choice([1, 2, 4]))), (2, r.rint(1, 3 * res + 1)), (1, r.choice([1, 2, 128]))])
            d = max(d, int(res * 0.0002) + 1)
            end[p, c] = s + d
            notes.append({'on': s, 'off': s + d, 'pitch': p, 'vel': r.weighted([(5, r.rint(1, 127)), (1, 1)]), 'ch': c,
                          'zero': r.chance(0.4), 'rel': r.choice([0, 64, 127])})
        last = max([n['off'] for n in notes] or [0])
        extra = []
        for k in range(r.weighted([(3, 0), (3, r.rint(1, 5))])):
            extra.append(gextra(r, last, pool))
        f['tracks'].append({'name': r.choice(TRACKNAMES) if r.chance(0.6) else None, 'late': r.chance(0.15), 'notes': notes,
                            'extra': extra, 'running': r.chance(0.6), 'tail': r.weighted([(3, 0), (2, r.below(4 * res))]),
                            'stray': [[r.below(last + 2), r.choice(pool + [1, 2]), r.choice(ch), r.chance(0.5)]
                                      for _ in range(r.weighted([(6, 0), (1, 1), (1, 2)]))],
                            'order': r.below(1000)})
    return f


def gextra(r, last, pool):
    t = r.below(last + 1)
    k = r.below(14)
    if k < 8:
        b = [[0xb0 | r.below(16), r.below(128), r.below(128)], [0xc0 | r.below(16), r.below(128)], [0xd0 | r.below(16), r.below(128)],
             [0xe0 | r.below(16), r.below(128), r.below(128)], [0xa0 | r.below(16), r.choice(pool), r.below(128)],
             [0xb0, 123, 0], [0xb0, 64, 127], [0xc9, 0]][k]
        return [t, 'ch', b]
    if k < 12:
        n = r.weighted([(4, r.below(12)), (1, 127), (1, 128), (1, 300)])
        return [t, 'meta', r.choice([1, 2, 4, 5, 6, 7, 8, 9, 0x7f, 0x60]), [r.below(256) for _ in range(n)]]
    if k == 12:
        return [t, 'meta'] + r.choice([[0x20, [r.below(16)]], [0x21, [0]], [0x54, [0, 0, 0, 0, 0]], [0, [0, 1]]])
    n = r.weighted([(5, r.below(20)), (1, r.choice([127, 128, 200]))])
    if r.chance(0.4):
        # one of several packets, or an escape
        return [t, 'packet', r.choice([0xf0, 0xf7]), [r.below(256) for _ in range(n)]]
    return [t, 'sysex', [r.below(128) for _ in range(n)]]


def encode(f):
    out = b'MThd' + struct.pack('>LHHH', 6 + f['header'], f['format'], len(f['tracks']), f['res']) + b'\x01' * f['header']
    for k, t in enumerate(f['tracks']):
        ev = []         # (tick, class, order, kind, bytes)
        n = 0
        if k == f['metatrack']:
            if f['bpm_us']:
                u = f['bpm_us']
                ev.append((0, -2, 1, 'x', [0xff, 0x51, 3, u >> 16, u >> 8 & 255, u & 255]))
            if f['ts']:
                ev.append((0, -2, 2, 'x', [0xff, 0x58, 4, f['ts'][0], [1, 2, 4, 8, 16, 32, 64].index(f['ts'][1]), 24, 8]))
            if f['key']:
                ev.append((0, -2, 3, 'x', [0xff, 0x59, 2, f['key'][0] & 255, f['key'][1]]))
        if t['name'] is not None:
            b = bytearray(t['name'].encode('ascii'))
            ev.append((0, -1 if t['late'] else -3, 0, 'x', [0xff, 3, len(b)] + list(b)))
        for i, o in enumerate(t['notes']):
            ev.append((o['on'], 1, mix(t['order'], i) & 0xffff, 'c', [0x90 | o['ch'], o['pitch'], o['vel']]))
            if o['zero']:
                b = [0x90 | o['ch'], o['pitch'], 0]
            else:
                b = [0x80 | o['ch'], o['pitch'], o['rel']]
            ev.append((o['off'], 0, mix(t['order'], i) & 0xffff, 'c', b))
        for i, (tick, p, ch, zero) in enumerate(strays(t)):
            ev.append((tick, 0, 70000 + i, 'c', [0x90 | ch, p, 0] if zero else [0x80 | ch, p, 64]))
        for i, x in enumerate(t['extra']):
            if x[1] == 'ch':
                ev.append((x[0], mix(t['order'], i, 'c') % 3, i, 'c', x[2]))
            elif x[1] == 'meta':
                ev.append((x[0], mix(t['order'], i, 'c') % 3, i, 'x', [0xff, x[2]] + list(bytearray(lib.varlen(len(x[3])))) + x[3]))
            elif x[1] == 'packet':
                ev.append((x[0], 2, i, 'x', [x[2]] + list(bytearray(lib.varlen(len(x[3])))) + x[3]))
            else:
                ev.append((x[0], 2, i, 'x', [0xf0] + list(bytearray(lib.varlen(len(x[2]) + 1))) + x[2] + [0xf7]))
        ev.sort()
        b = bytearray()
        tick = 0
        status = None
        for e in ev:
            b += bytearray(lib.varlen(e[0] - tick))
            tick = e[0]
            if e[3] == 'c':
                if t['running'] and status == e[4][0]:
                    b += bytearray(e[4][1:])
                else:
                    b += bytearray(e[4])
                status = e[4][0]
            else:
                b += bytearray(e[4])
                status = None
        b += bytearray(lib.varlen(t['tail'])) + bytearray([0xff, 0x2f, 0])
        t['end'] = tick + t['tail']
        out += b'MTrk' + struct.pack('>L', len(b)) + bytes(b)
    return out


def strays(t):
    """Note-offs at a moment when no note of that pitch sounds."""
    for tick, p, ch, zero in t['stray']:
        if not any(o['pitch'] == p and o['ch'] == ch and o['on'] <= tick <= o['off'] for o in t['notes']):
            yield tick, p, ch, zero


KEYNAMES = ['Cb', 'Gb', 'Db', 'Ab', 'Eb', 'Bb', 'F', 'C', 'G', 'D', 'A', 'E', 'B', 'F#', 'C#']
NAMES12 = ['C', 'C#', 'D', 'Eb', 'E', 'F', 'F#', 'G', 'Ab', 'A', 'Bb', 'B']
SIMPLE = {'Kick': 36, 'Rimshot': 37, 'Snare': 38}


def tagof(m, mapping, pitch, ch):
    """What a note is called: None if nothing."""
    if m is None or 'pitchName' in m:
        names = NAMES12 if m is None else m['pitchName']
        return names[pitch % 12] + str(pitch // 12 - 1)
    found = []
    for k in mapping:
        v = mapping[k]
        for x in v if isinstance(v, list) else [v]:
            p, c = x if isinstance(x, (tuple, list)) else (x, '*')
            if p in ('*', pitch) and c in ('*', ch):
                found.append(k)
                break
    if not found:
        return None
    return found[0] if len(found) == 1 else tuple(sorted(found))


def reference(f, imp, mapping):
    m = imp['map']
    notes = []
    dur = 0
    for k, t in enumerate(f['tracks']):
        if imp['tracks'] and not (k in imp['tracks'] or (t['name'] is not None and t['name'] in imp['tracks'])):
            continue
        dur = max(dur, t['end'])
        for i, o in sorted(enumerate(t['notes']), key=lambda x: (x[1]['on'], mix(t['order'], x[0]) & 0xffff)):
            if imp['byname']:
                tag = tuple(sorted(x for x in mapping if x in (t['name'] or '')))
                if not tag:
                    continue
            else:
                tag = tagof(m, mapping, o['pitch'], o['ch'])
                if tag is None:
                    if imp['filter']:
                        continue
                    tag = ()
            notes.append([o['pitch'], o['on'], o['off'], o['vel'], tag])
    if imp.get('overlap'):
        # as they come, track by track: notes of one pitch that begin together are replaced by the last of them
        m = {'events': [[n[1], n[2] - n[1], n[0], n[3], n[4]] for n in notes]}
        model.overlap(m, True)
        notes = [[e[2], e[0], e[0] + e[1], e[3], e[4]] for e in m['events']]
    return notes, dur


def gen(r, tier, i):
    s = {'seed': r.below(1 << 30), 'fs': genfs(r), 'files': [], 'imports': []}
    if r.chance(0.5):
        s['fs']['shortreads'] = r.choice([1, 2, 3, 7, 100])
    for k in range(r.weighted([(5, 1), (2, 2)])):
        f = gfile(r, None)
        f['name'] = '%d%s' % (k, f['name'])
        s['files'].append(f)
    maps = [r.choice(MAPS) for _ in range(2)]
    for k in range(r.weighted([(4, 1), (3, 2), (1, 4)])):
        n = r.below(len(s['files']))
        imp = {'file': n, 'map': r.choice(maps), 'tracks': None, 'byname': False, 'filter': r.chance(0.75), 'overlap': r.chance(0.3),
               'fault': r.float() if r.chance(0.15) else None, 'nudge': r.chance(0.2)}
        f = s['files'][n]
        names = [t['name'] for t in f['tracks'] if t['name'] is not None]
        if r.chance(0.3):
            imp['tracks'] = r.sample(list(range(len(f['tracks']))) + [9], 1 + r.below(2)) + \
                ([r.choice(names)] if names and r.chance(0.5) else []) if r.chance(0.6) or not names else [r.choice(names)]
        if imp['map'] not in (None, 'simpleDrumMap', 'verySimpleDrumMap') and 'pitchName' not in imp['map'] and r.chance(0.3):
            imp['byname'] = True
        s['imports'].append(imp)
    return s


def run(s, o):
    files = list(s['files'])
    with mkworld(s) as w:
        w.fs.mkdirs('/sim/in')
        for f in files:
            w.fs.put('/sim/in/' + f['name'], encode(f))
        # mappings are shared between the imports that use equal ones
        maps = {}
        for k, imp in enumerate(s['imports']):
            key = lib.digest(imp['map'])
            if key not in maps:
                m = ops.mkmap(w.api, imp['map'])
                maps[key] = (m, None if isinstance(m, str) else dict((x, list(v) if isinstance(v, list) else v) for x, v in m.items()))
            m, copy = maps[key]
            f = files[imp['file']]
            if imp.get('nudge'):
                # another file of the same name and size takes its place
                f = files[imp['file']] = dict(f, tracks=[dict(t, notes=[dict(x, vel=128 - x['vel']) for x in t['notes']]) for t in f['tracks']])
                w.fs.put('/sim/in/' + f['name'], encode(f))
                o.probe('file replaced')
            notes, dur = reference(f, imp, {} if copy is None else copy)
            path = '/sim/in/' + f['name']
            kw = {}
            if imp['tracks']:
                kw['tracksToGet'] = [lib.native(x) if not isinstance(x, int) else x for x in imp['tracks']]
            if imp['byname']:
                kw['tagFromTrackName'] = True
            if imp['overlap']:
                kw['checkForOverlapped'] = True
            if not imp['filter']:
                kw['filterOutNotMapped'] = False
            if imp['fault'] is not None:
                # an import that fails leaves no trace
                w.fs.faults = {(('f', k), 1 + int(imp['fault'] * 4)): {'kind': 'eio'}}
                w.fs.begin(('f', k))
                try:
                    w.api.gsio.fromMidiFile(path, m, **kw)
                except (IOError, OSError):
                    o.fired({'eio': 1})
                w.fs.end()
            w.fs.begin(k)
            p = w.api.gsio.fromMidiFile(path, m, **kw)
            w.fs.end()
            o.steps += w.fs.nops
            d = compare(f, notes, dur, p)
            o.note(k, lib.digest(lib.snap(p, True)))
            o.sigs.append(mix(f['format'], len(f['tracks']), sorted(set(str(x[1]) for t in f['tracks'] for x in t['extra'])).__repr__(),
                              key, bool(imp['tracks']), imp['byname'], imp['filter'], s['fs']['shortreads'], f['header']))
            if notes:
                o.nontrivial = True
            if d:
                o.bad('wrong import', 'import %d of %s (map %s, tracks %s, by name %s): %s' % (
                    k, f['name'], imp['map'], imp['tracks'], imp['byname'], '; '.join(d)))
                return
            if copy is not None and m != copy:
                o.bad('mapping changed', 'the import changed the mapping it was given to %r' % m)
                return


def compare(f, notes, dur, p):
    out = []
    res = f['res']
    if p.resolution != res:
        out.append('resolution %r instead of %r' % (p.resolution, res))
    us = f['bpm_us'] or 500000
    if abs(p.bpm - 6e7 / us) > 1e-9 * abs(p.bpm):
        out.append('bpm %r instead of %r' % (p.bpm, 6e7 / us))
    if tuple(p.timeSignature) != tuple(f['ts'] or (4, 4)):
        out.append('time signature %r instead of %r' % (p.timeSignature, f['ts']))
    key = '' if not f['key'] else KEYNAMES[f['key'][0] + 7] + ('m' if f['key'][1] else '')
    if (p.key or '') != key:
        out.append('key %r instead of %r' % (p.key, key))
    if p.name != f['name']:
        out.append('name %r instead of %r' % (p.name, f['name']))
    if abs(p.duration - dur / float(res)) > 1e-9 * max(1, dur / float(res)):
        out.append('duration %r instead of %r' % (p.duration, dur / float(res)))
    want = sorted((n[0], n[1], n[2], n[3], repr(lib.ctag(n[4]))) for n in notes)
    got = []
    for e in p.events:
        a, b = e.startTime * res, (e.startTime + e.duration) * res
        if abs(a - round(a)) > 1e-4 or abs(b - round(b)) > 1e-4:
            out.append('a note from tick %r to %r' % (a, b))
        t = tuple(sorted(e.tag)) if isinstance(e.tag, tuple) else e.tag
        got.append((e.pitch, int(round(a)), int(round(b)), e.velocity, repr(lib.ctag(t))))
    got.sort()
    if got != want:
        miss = [x for x in want if x not in got]
        more = [x for x in got if x not in want]
        out.append('notes [pitch, on, off, velocity, tag]: missing %s, unexpected %s' % (miss[:2], more[:2]) if miss or more else
                   '%d notes instead of %d' % (len(got), len(want)))
    return out
