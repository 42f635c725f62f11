# -*- coding: utf-8 -*-
"""C23: MIDI files as messages: read, edited, written, read again, with faults and restarts in between."""
from __future__ import absolute_import, division, print_function

import struct

import lib
from props import faulty
from props.history import genfs, mkworld
from prng import mix
from sched import Interrupter, Stuck

RUNS = {'quick': 12000, 'thorough': 200000}
JRUNS = {'quick': 100, 'thorough': 3000}
RULE = ('a run reads a generated file of arbitrary messages and applies 2 to 14 steps (edits through every field, slices, copies, times absolute '
        'and relative, writes, reads, faults, cancelled calls, restarts), the messages compared after each; non-trivial: a file with '
        'messages was written or read after an edit; distinct: scenario differs')
MEASURE = 'sequence of kinds of steps and of messages they touch'
REAL = ['gsapi.midiio', 'io buffering']
STUB = ['disk: in-memory file system (sim/simfs.py)', 'the writer of the first file and the strict reader: an independent codec']
ASSUMPTIONS = ['metrical divisions (no SMPTE)', 'times are made relative before a file is written',
               'a message that MIDI cannot hold (data bytes, channels, times) must raise when written']

TEXTS = {1: 'Text', 2: 'Copyright Notice', 3: 'Track Name', 4: 'Instrument Name', 5: 'Lyrics', 6: 'Marker', 7: 'Cue Point', 8: 'Program Name'}
LENGTHS = {0: [0, 2], 0x20: [1], 0x21: [1], 0x2e: [0, 1, 3], 0x51: [3], 0x54: [5], 0x58: [4], 0x59: [2]}
CLASSES = {8: 'NoteOffEvent', 9: 'NoteOnEvent', 10: 'AfterTouchEvent', 11: 'ControlChangeEvent', 12: 'ProgramChangeEvent',
           13: 'ChannelAfterTouchEvent', 14: 'PitchWheelEvent'}
METAS = {0: 'SequenceNumberMetaEvent', 1: 'TextMetaEvent', 2: 'CopyrightMetaEvent', 3: 'TrackNameEvent', 4: 'InstrumentNameEvent',
         5: 'LyricsEvent', 6: 'MarkerEvent', 7: 'CuePointEvent', 8: 'ProgramNameEvent', 0x20: 'ChannelPrefixEvent', 0x21: 'PortEvent',
         0x2e: 'TrackLoopEvent', 0x2f: 'EndOfTrackEvent', 0x51: 'SetTempoEvent', 0x54: 'SmpteOffsetEvent', 0x58: 'TimeSignatureEvent',
         0x59: 'KeySignatureEvent', 0x7f: 'SequencerSpecificEvent'}
FIELDS = {8: ['pitch', 'velocity'], 9: ['pitch', 'velocity'], 10: ['pitch', 'value'], 11: ['control', 'value'], 12: ['value'], 13: ['value'],
          14: ['pitch']}


# ---- messages as data: [delta, 'ch', status byte, data] [delta, 'meta', kind, data] [delta, 'sysex', status, data] ----------
def gdelta(r):
    return r.weighted([(5, 0), (5, r.below(300)), (2, r.below(5000)), (1, r.choice([127, 128, 129, 16383, 16384, 2097151, 2097152, 268435455]))])


def gmsg(r, chs):
    k = r.weighted([(8, 'ch'), (4, 'meta'), (1, 'sysex')])
    d = gdelta(r)
    if k == 'ch':
        s = r.choice([8, 9, 9, 9, 10, 11, 11, 12, 13, 14])
        n = 1 if s in (12, 13) else 2
        return [d, 'ch', s << 4 | r.choice(chs), [r.choice([0, 127, 64, r.below(128)]) for _ in range(n)]]
    if k == 'meta':
        c = r.choice(list(TEXTS) + [0, 0x20, 0x21, 0x2e, 0x51, 0x51, 0x54, 0x58, 0x58, 0x59, 0x59, 0x7f, 9, 0x0f, 0x60, 0x4b, 0x7e])
        return [d, 'meta', c, gmeta(r, c)]
    data = [r.below(128) for _ in range(r.weighted([(5, r.below(20)), (1, 0), (1, 127), (1, 128), (1, 300), (0.2, 16384)]))]
    s = r.weighted([(4, 0xf0), (1, 0xf7)])
    if s == 0xf0 and r.chance(0.8):
        data.append(0xf7)
    elif s == 0xf7 and r.chance(0.5):
        data = [r.below(256) for _ in data] + [0xf7]
    return [d, 'sysex', s, data]


def gmeta(r, c):
    if c == 0x51:
        u = r.choice([1, 500000, 16777215, 461538, 1 + r.below(16777215)])
        return [u >> 16, u >> 8 & 255, u & 255]
    if c == 0x58:
        return [r.choice([4, 3, 1, 255, 7]), r.below(8), r.choice([24, r.below(256)]), r.choice([8, r.below(256)])]
    if c == 0x59:
        return [r.rint(-7, 7) & 255, r.below(2)]
    if c in LENGTHS:
        return [r.below(256) for _ in range(r.choice(LENGTHS[c]))]
    return [r.below(256) for _ in range(r.weighted([(5, r.below(12)), (1, 0), (1, 127), (1, 128), (1, 400), (0.06, r.choice([16383, 16384, 16390, 40000]))]))]


def gfile(r):
    f = {'name': r.choice(['a.mid', 'A b.mid', 'x']), 'format': r.choice([0, 1, 1, 2]), 'header': r.weighted([(6, 0), (1, 1), (1, 7)]),
         'res': r.choice([96, 480, 960, 1, 32767, 220]), 'tracks': []}
    for k in range(1 if f['format'] == 0 else r.rint(0, 4)):
        chs = [r.below(16) for _ in range(r.rint(1, 2))]
        f['tracks'].append({'msgs': [gmsg(r, chs) for _ in range(r.weighted([(1, 0), (6, r.rint(1, 12)), (1, r.rint(20, 60))]))],
                            'running': r.weighted([(1, 0.0), (2, 1.0), (1, 0.5)]), 'seed': r.below(1 << 20), 'end': gdelta(r)})
    return f


def encode(f):
    from prng import Rng
    out = b'MThd' + struct.pack('>LHHH', 6 + f['header'], f['format'], len(f['tracks']), f['res']) + b'\x4d' * f['header']
    for t in f['tracks']:
        r = Rng('running', t['seed'])
        b = bytearray()
        status = None
        for d, k, c, data in t['msgs'] + [[t['end'], 'meta', 0x2f, []]]:
            b += bytearray(lib.varlen(d))
            if k == 'ch':
                if not (status == c and r.chance(t['running'])):
                    b.append(c)
                status = c
            else:
                b += bytearray([0xff, c] if k == 'meta' else [c]) + bytearray(lib.varlen(len(data)))
                status = None
            b += bytearray(data)
        out += b'MTrk' + struct.pack('>L', len(b)) + bytes(b)
    return out


# ---- the model: {'abs','res','format','tracks': [{'abs': , 'msgs': [[tick, kind, c, data]]}]} -----------------------------
def model(f):
    return {'abs': False, 'res': f['res'], 'format': f['format'],
            'tracks': [{'abs': False, 'msgs': [list(m[:3]) + [list(m[3])] for m in t['msgs']] + [[t['end'], 'meta', 0x2f, []]]}
                       for t in f['tracks']]}


def toabs(t):
    if not t['abs']:
        t['abs'] = True
        now = 0
        for m in t['msgs']:
            now += m[0]
            m[0] = now


def torel(t):
    if t['abs']:
        t['abs'] = False
        now = 0
        for m in t['msgs']:
            m[0], now = m[0] - now, m[0]


def fields(m):
    """What the message says, by name."""
    k, c, d = m[1:]
    if k == 'ch':
        s = c >> 4
        if s == 14:
            return {'pitch': (d[1] << 7 | d[0]) - 8192}
        return dict(zip(FIELDS[s], d))
    if k == 'meta':
        if c in TEXTS:
            return {'text': ''.join(chr(x) for x in d)}
        if c == 0x51:
            u = d[0] << 16 | d[1] << 8 | d[2]
            return {'mpqn': u, 'bpm': 6e7 / u}
        if c == 0x58:
            return {'numerator': d[0], 'denominator': 2 ** d[1], 'metronome': d[2], 'thirtyseconds': d[3]}
        if c == 0x59:
            return {'alternatives': d[0] - 256 if d[0] > 127 else d[0], 'minor': d[1]}
    return {}


def compare(api, m, p):
    if p.resolution != m['res'] or p.frmt != m['format']:
        return 'resolution %r, format %r instead of %r, %r' % (p.resolution, p.frmt, m['res'], m['format'])
    if p.tick_relative != (not m['abs']) or [t.tick_relative for t in p] != [not t['abs'] for t in m['tracks']]:
        return 'times relative: %r, %r instead of %r, %r' % (p.tick_relative, [t.tick_relative for t in p], not m['abs'], [not t['abs'] for t in m['tracks']])
    if len(p) != len(m['tracks']):
        return '%d tracks instead of %d' % (len(p), len(m['tracks']))
    for i in range(len(p)):
        t, mt = p[i], m['tracks'][i]
        if len(t) != len(mt['msgs']):
            return 'track %d: %d messages instead of %d' % (i, len(t), len(mt['msgs']))
        for j in range(len(t)):
            d = message(api, mt['msgs'][j], t[j])
            if d:
                return 'track %d, message %d: %s, should be %s' % (i, j, d, mt['msgs'][j])
    return None


def message(api, m, e):
    tick, k, c, d = m
    if e.tick != tick:
        return 'at %r' % e.tick
    if list(e.data) != d:
        return 'data %r' % list(e.data)[:20]
    if k == 'ch':
        want = CLASSES[c >> 4]
        if e.channel != c & 15:
            return 'channel %r' % e.channel
    elif k == 'meta':
        want = METAS.get(c, 'UnknownMetaEvent')
        if e.metacommand != c:
            return 'kind %r' % e.metacommand
    else:
        want = 'SysexEvent'
        if e.statusmsg != c:
            return 'status %r' % e.statusmsg
    if type(e).__name__ != want:
        return 'is a %s' % type(e).__name__
    for n, v in fields(m).items():
        if getattr(e, n) != v:
            return '%s is %r' % (n, getattr(e, n))
    return None


# ---- steps --------------------------------------------------------------------------------------
def gen(r, tier, i):
    f = gfile(r)
    s = {'seed': r.below(1 << 30), 'fs': genfs(r), 'file': f, 'steps': []}
    for k in range(r.rint(2, 14)):
        do = r.weighted([(2, 'abs'), (2, 'rel'), (1, 'tabs'), (1, 'trel'), (1, 'track'), (5, 'set'), (3, 'insert'), (2, 'delete'), (2, 'slice'), (1, 'tracks'), (2, 'copy'), (3, 'write'),
                         (2, 'read'), (1, 'look'), (1, 'bad')])
        st = {'do': do, 't': r.below(4), 'n': r.below(64), 'x': r.below(1 << 20)}
        if do == 'insert':
            st['msg'] = gmsg(r, [r.below(16)])
            st['fields'] = r.chance(0.6)
        elif do == 'slice':
            st['a'], st['b'] = r.choice([None, r.below(8), -r.below(4) - 1]), r.choice([None, r.below(20), -r.below(4) - 1])
            st['step'] = r.weighted([(5, None), (1, 2), (0.5, 1)])
        elif do == 'track':
            st['msgs'] = [gmsg(r, [r.below(16)]) for _ in range(r.below(5))]
            st['fields'] = r.chance(0.5)
            st['add'] = r.chance(0.5)
        elif do == 'tracks':
            st['a'], st['b'] = r.choice([None, 0, 1]), r.choice([None, 1, 2, 5, -1])
        elif do in ('write', 'read'):
            st['open'] = r.choice([False, False, True, 'again'])
        elif do == 'bad':
            st['how'] = r.choice(['data', 'data', 'channel', 'late', 'early', 'tempo', 'bpm', 'bend', 'alien'])
        if do in ('write', 'read'):
            if r.chance(0.25):
                on = r.choice(['open', 'read', 'read', 'close'] if do == 'read' else ['create', 'write', 'write', 'close'])
                st['fault'] = {'on': on, 'kind': r.choice(faulty.HARD[on]), 'at': r.weighted([(3, 0), (1, 1), (1, 2)]), 'arg': r.below(60)}
            elif r.chance(0.15):
                st['cancel'] = r.float()
            st['restart'] = r.chance(0.2)
        s['steps'].append(st)
    return s


def new(api, m, byfields):
    """An event as a user makes it."""
    tick, k, c, d = m
    M = api.midiio
    if k == 'ch':
        cls = getattr(M, CLASSES[c >> 4])
        if byfields:
            return cls(tick=tick, channel=c & 15, **fields(m))
        return cls(tick=tick, channel=c & 15, data=list(d))
    if k == 'sysex':
        return M.SysexEvent(tick=tick, data=list(d), statusmsg=c) if c != 0xf0 else M.SysexEvent(tick=tick, data=list(d))
    if c not in METAS:
        return M.UnknownMetaEvent(tick=tick, metacommand=c, data=list(d))
    cls = getattr(M, METAS[c])
    if byfields and (c in (0x51, 0x58, 0x59) or c in TEXTS):
        kw = fields(m)
        kw.pop('bpm', None)
        return cls(tick=tick, **kw)
    return cls(tick=tick, data=list(d))


def settable(m, x):
    """[(field, value, data afterwards)] of a message."""
    k, c, d = m[1:]
    out = []
    v = x & 127
    if k == 'ch':
        s = c >> 4
        if s == 14:
            w = (x >> 7 & 16383) - 8192 if x % 8 else [-8192, 8191, 0, -1][x >> 3 & 3]
            out.append(('pitch', w, [w + 8192 & 127, w + 8192 >> 7]))
        else:
            for n, name in enumerate(FIELDS[s]):
                out.append((name, v, d[:n] + [v] + d[n + 1:]))
    elif k == 'meta':
        if c == 0x51:
            u = 1 + x * 16 % 16777215
            out.append(('mpqn', u, [u >> 16, u >> 8 & 255, u & 255]))
            out.append(('bpm', 4 + x % 4000 / 8.0, None))
        elif c == 0x58:
            out.append(('numerator', 1 + x % 255, [1 + x % 255] + d[1:]))
            out.append(('denominator', 1 << x % 8, [d[0], x % 8] + d[2:]))
            out.append(('metronome', x & 255, d[:2] + [x & 255] + d[3:]))
            out.append(('thirtyseconds', x & 255, d[:3] + [x & 255]))
        elif c == 0x59:
            out.append(('alternatives', x % 15 - 7, [x % 15 - 7 & 255, d[1]]))
            out.append(('minor', x & 1, [d[0], x & 1]))
        elif c in TEXTS:
            t = ['', 'a', 'Kick 1', 'caf\xe9', 'x' * 130][x % 5]
            if x & 64 and not isinstance(t, bytes) or x & 64 and str is bytes:
                out.append(('text', t if str is not bytes else t.decode('latin-1'), [ord(y) for y in t]))
            else:
                out.append(('text', t if str is bytes else t.encode('latin-1'), [ord(y) for y in t]))
    return out


def run(s, o):
    f = s['file']
    with mkworld(s) as w:
        w.fs.mkdirs('/sim/in')
        path = '/sim/in/' + f['name']
        w.fs.put(path, encode(f))
        st = State()
        st.m = model(f)             # what p says
        st.disk = model(f)          # what the file says
        st.p = st.reader = st.writer = None
        did = []
        for k, op in enumerate([{'do': 'read', 't': 0, 'n': 0, 'x': 0}] + s['steps'] + [{'do': 'write', 't': 0, 'n': 0, 'x': 1, 'restart': True},
                                                                                      {'do': 'read', 't': 0, 'n': 0, 'x': 0}]):
            words = step(w, st, o, op, k, path)
            if o.violations:
                return
            if words is None:
                continue
            did.append(words)
            o.steps += 1
            if st.p is None:
                continue
            d = compare(w.api, st.m, st.p)
            if d:
                o.bad('messages differ', '%s: %s' % (' | '.join(did[-6:]), d))
                return
        o.note(lib.digest(st.m), did)
        o.sigs.append(mix(*[x.split(':')[0] for x in did]))
        o.sigs.append(mix(*sorted(set('%s%s' % (m[1], m[2] if m[1] != 'ch' else m[2] >> 4) for t in st.m['tracks'] for m in t['msgs']))))


class State(object):
    pass


def clone(m):
    return {'abs': m['abs'], 'res': m['res'], 'format': m['format'],
            'tracks': [{'abs': t['abs'], 'msgs': [x[:3] + [list(x[3])] for x in t['msgs']]} for t in m['tracks']]}


def step(w, st, o, op, k, path):
    M = w.api.midiio
    do = op['do']
    m = st.m
    if do == 'read':
        if op.get('restart'):
            w.boot()
            M = w.api.midiio
            st.reader = st.writer = None
            o.fired({'crash after acknowledgement': 1})
        src = path

        def call():
            if op.get('open'):
                # a reader that is used again
                if not st.reader:
                    st.reader = M.FileReader()
                with open(src, 'rb') as h:
                    return (st.reader.read if op['open'] == 'again' else M.read_midifile)(h)
            return M.read_midifile(src)
        p = guarded(w, o, op, k, call, 'read')
        if o.violations:
            return None
        st.p = p
        st.m = clone(st.disk)
        o.probe('read')
        if len(st.disk['tracks']) and any(len(t['msgs']) > 1 for t in st.disk['tracks']) and k:
            o.nontrivial = True
        return 'read'
    p = st.p
    nt = len(m['tracks'])
    if do in ('abs', 'rel'):
        getattr(p, 'make_ticks_' + do)()
        m['abs'] = do == 'abs'
        for t in m['tracks']:
            (toabs if do == 'abs' else torel)(t)
        return do
    if do == 'track':
        # a track of the user's own: its times are relative, whatever those of the others are
        l = [list(x[:3]) + [list(x[3])] for x in op['msgs']]
        tr = M.Track([new(w.api, x, op['fields']) for x in l])
        if op['add'] or not nt:
            p.append(tr)
            m['tracks'].append({'abs': False, 'msgs': l})
        else:
            p[op['t'] % nt] = tr
            m['tracks'][op['t'] % nt] = {'abs': False, 'msgs': l}
        return do
    if do == 'look':
        before = repr(p)
        if repr(p) != before or '%d' % st.m['res'] not in before:
            o.bad('printing', 'printing twice differs')
        return do
    if do == 'tracks':
        st.p = p[op['a']:op['b']]
        m['tracks'] = m['tracks'][op['a']:op['b']]
        return 'tracks %s:%s' % (op['a'], op['b'])
    if do == 'write':
        return write(w, st, o, op, k, path)
    if not nt:
        return None
    t = op['t'] % nt
    mt, tr = m['tracks'][t], p[t]
    msgs = mt['msgs']
    n = op['n'] % max(1, len(msgs))
    if do in ('tabs', 'trel'):
        getattr(tr, 'make_ticks_' + do[1:])()
        (toabs if do == 'tabs' else torel)(mt)
        return do
    if do == 'set':
        if not msgs:
            return None
        l = settable(msgs[n], op['x'])
        if not l:
            return None
        name, v, data = l[op['n'] // 7 % len(l)]
        setattr(tr[n], name, v)
        if data is None:
            u = tr[n].mpqn
            if abs(u - 6e7 / v) > 1:
                o.bad('tempo', 'bpm set to %r, but a beat has %r microseconds' % (v, u))
                return None
            data = [u >> 16, u >> 8 & 255, u & 255]
        msgs[n][3] = data
        return 'set: %s of message %d of track %d' % (name, n, t)
    if do == 'insert':
        x = [op['msg'][0]] + op['msg'][1:3] + [list(op['msg'][3])]
        if mt['abs']:
            # mostly at its place in time
            x[0] = msgs[n - 1][0] if n and msgs else 0
            if op['x'] % 16 == 3:
                x[0] += op['x'] >> 4 & 255
        tr.insert(n, new(w.api, x, op['fields']))
        msgs.insert(n, x)
        return 'insert: %s %x' % (x[1], x[2])
    if do == 'delete':
        if not msgs:
            return None
        del tr[n]
        del msgs[n]
        return 'delete'
    if do == 'slice':
        sl = slice(op['a'], op['b'], op['step'])
        if op['step'] is None:
            p[t] = tr[op['a']:op['b']]
        else:
            p[t] = tr[sl]
        mt['msgs'] = msgs[sl]
        return 'slice %s:%s:%s' % (op['a'], op['b'], op['step'])
    if do == 'copy':
        if not msgs:
            return None
        x = msgs[n]
        kw = {}
        y = x[:3] + [list(x[3])]
        if op['x'] & 1 and y[1] == 'ch':
            kw['channel'] = op['x'] >> 1 & 15
            y[2] = y[2] & 0xf0 | kw['channel']
        l = [z for z in settable(y, op['x'] >> 6) if z[2] is not None]
        if op['x'] & 48 == 16 and l:
            # changed by copying
            l = l[op['x'] >> 6 & 3:] or l
            kw[l[0][0]] = l[0][1]
            y[3] = l[0][2]
        e = tr[n].copy(**kw)
        if op['x'] & 32:
            # edited, it leaves the original alone
            if l:
                setattr(e, l[0][0], l[0][1])
                y[3] = l[0][2]
            elif y[3]:
                e.data[0] = op['x'] & 127
                y[3][0] = op['x'] & 127
        tr.insert(n, e)
        msgs.insert(n, y)
        return 'copy'
    if do == 'bad':
        # what MIDI cannot hold
        how = op['how']
        if how == 'data':
            e = M.NoteOnEvent(tick=0, pitch=op['x'] % 128, velocity=128 + op['x'] % 128)
        elif how == 'channel':
            e = M.NoteOnEvent(tick=0, channel=16 + op['x'] % 9, pitch=60, velocity=1)
        elif how in ('tempo', 'bend', 'bpm'):
            # refused at once, and nothing is changed
            v = op['x'] % 1000 if op['x'] & 1024 else op['x'] % 4
            u = 0 if op['x'] & 2048 else v
            if how == 'tempo':
                e, name, v, d = M.SetTempoEvent(mpqn=500000), 'mpqn', [1 << 24, (1 << 24) + u, 0, -1 - u][v % 4], [7, 161, 32]
            elif how == 'bpm':
                e, name, v, d = M.SetTempoEvent(mpqn=500000), 'bpm', [3, 1, 0.5, 6.1e7][v % 4], [7, 161, 32]
            else:
                e, name, v, d = M.PitchWheelEvent(pitch=5), 'pitch', [8192 + u, -8193 - u][v % 2], [5, 64]
            try:
                setattr(e, name, v)
            except Exception:
                if list(e.data) != d:
                    o.bad('half set', '%s = %r raised but left data %r' % (name, v, e.data))
                return 'bad'
            o.bad('accepted', '%s = %r was accepted: the data are %r' % (name, v, list(e.data)))
            return None
        elif how == 'alien':
            e = w.api.Event(0, 1, 60, 100, ('a',))
            e.tick = op['x'] % 100
        else:
            e = M.NoteOnEvent(tick=(1 << 28) + op['x'] if how == 'late' else -1 - op['x'] % 1000, pitch=60, velocity=1)
        q = M.Pattern(resolution=96, tracks=[M.Track([e, M.EndOfTrackEvent(tick=1)])])
        try:
            M.write_midifile('/sim/in/bad.mid', q)
        except Exception:
            return 'bad'
        o.bad('accepted', 'a message that MIDI cannot hold (%s: %r) was written as %r' % (how, e, w.fs.get('/sim/in/bad.mid')))
        return None


def write(w, st, o, op, k, path):
    M = w.api.midiio
    p, m = st.p, st.m
    if any(t['abs'] for t in m['tracks']):
        p.make_ticks_rel()
        m['abs'] = False
        for t in m['tracks']:
            torel(t)
    for t in m['tracks']:
        if any(x[0] < 0 or x[0] >= 1 << 28 for x in t['msgs']):
            # inserted or sliced beyond what MIDI can hold
            try:
                M.write_midifile('/sim/in/bad.mid', p)
            except Exception:
                o.probe('refused')
                return None
            o.bad('accepted', 'times that MIDI cannot hold (%s) were written as %r' % ([x[0] for x in t['msgs']], w.fs.get('/sim/in/bad.mid')))
            return None
    for i, t in enumerate(m['tracks']):
        # every track ends with its end
        j = 0
        while j < len(t['msgs']) - 1:
            if t['msgs'][j][1:3] == ['meta', 0x2f]:
                del t['msgs'][j]
                del p[i][j]
            else:
                j += 1
        if not t['msgs'] or t['msgs'][-1][1:3] != ['meta', 0x2f]:
            t['msgs'].append([1, 'meta', 0x2f, []])
            p[i].append(M.EndOfTrackEvent(tick=1))

    def call():
        if op.get('open'):
            with open(path, 'wb') as h:
                if op['open'] == 'again':
                    if not st.writer:
                        st.writer = M.FileWriter()
                    st.writer.write(h, p)
                else:
                    M.write_midifile(h, p)
        else:
            M.write_midifile(path, p)
    guarded(w, o, op, k, call, 'write')
    if o.violations:
        return None
    if w.fs.leaked(k):
        o.bad('left open', 'writing left %s open' % [h.path for h in w.fs.leaked(k)])
        return None
    st.disk = clone(m)
    st.disk['abs'] = False
    try:
        got = lib.decode_midi(w.fs.get(path))
    except lib.BadMidi as e:
        o.bad('not a MIDI file', 'what was written is no file that a strict reader accepts: %s' % e)
        return None
    want = []
    for t in m['tracks']:
        l, now = [], 0
        for d, kind, c, data in t['msgs']:
            now += d
            l.append((now, 'ch', c >> 4, c & 15, data) if kind == 'ch' else (now, kind, c, data))
        want.append(l)
    if got['format'] != m['format'] or got['res'] != m['res']:
        o.bad('written otherwise', 'format %r, resolution %r instead of %r, %r' % (got['format'], got['res'], m['format'], m['res']))
    elif got['tracks'] != want:
        d = lib.differ([[list(x) for x in t] for t in want], [[list(x) for x in t] for t in got['tracks']])
        o.bad('written otherwise', 'a strict reader reads other messages: %s' % '; '.join(d))
    if o.violations:
        return None
    o.probe('written')
    if any(len(t['msgs']) > 1 for t in m['tracks']) and k > 1:
        o.nontrivial = True
    return 'write'


def guarded(w, o, op, k, call, what):
    """The call under this step's fault, if any, and then without."""
    fs = w.fs
    if op.get('fault') or 'cancel' in op:
        tag = ('f', k)
        fs.faults = {}
        fs.begin(tag)
        hard = None
        try:
            if 'cancel' in op:
                Interrupter(at=1 + int(op['cancel'] ** 2 * 400), calls_only=True)(call)
            else:
                fs.faults = {(tag, op['fault']['on'], op['fault']['at']): {'kind': op['fault']['kind'], 'arg': op['fault']['arg']}}
                n = sum(fs.fired.values())
                call()
                if sum(fs.fired.values()) > n:
                    hard = op['fault']['kind']
        except (Exception, KeyboardInterrupt) as e:
            if isinstance(e, Stuck):
                raise
            o.fired({'cancelled' if 'cancel' in op else op['fault']['kind']: 1})
            o.probe('%s raised' % what)
        fs.end()
        fs.faults = {}
        if fs.leaked(tag):
            o.bad('left open', '%s with a fault left %s open' % (what, [h.path for h in fs.leaked(tag)]))
            return None
        if hard:
            o.bad('silent', '%s returned although %s was reported' % (what, hard))
            return None
    fs.begin(k)
    ret = call()
    fs.end()
    if fs.leaked(k):
        o.bad('left open', '%s left %s open' % (what, [h.path for h in fs.leaked(k)]))
    return ret
