# -*- coding: utf-8 -*-
"""
The operations of gsapi that touch the disk, as data.

A job is a dict; prepare() builds its inputs, call() is the one call of gsapi,
result() puts what it returned or left on disk into canonical form.
"""
from __future__ import absolute_import, division, print_function

import os

import lib
from lib import native, snap
from simfs import PY3

FOLDERS = ['/sim/out', '/sim/out/deep/er', 'rel', './output/', '/sim/with space', '/sim/out/', '/sim/dot.ted', '/sim/home']


def gfolder(r):
    return r.choice(FOLDERS)


# ---- styles ---------------------------------------------------------------------------
def gstyle(r, small=True):
    steps = r.choice([4, 8, 8, 16])
    order = r.choice([1, 1, 2, 3])
    loop = r.choice([4, 4, 2, 8])
    tags = r.sample(['Kick', 'Snare', 'Chh', 'Ohh', 'Rim', 'Clap'], r.rint(1, 4))
    pats = []
    for k in range(r.rint(1, 4)):
        ev = []
        for st in range(steps):
            for t in tags:
                if r.chance(0.35):
                    ev.append([st * loop / float(steps), loop / float(steps), 60, 90, t])
        pats.append({'name': 'p%d' % k, 'duration': loop, 'events': ev})
    return {'order': order, 'steps': steps, 'loop': loop, 'patterns': pats}


def mkstyle(api, s):
    st = api.gsstyles.MarkovStyle(order=s['order'], numSteps=s['steps'], loopDuration=s['loop'])
    st.generateStyle([lib.build(api, p) for p in s['patterns']])
    return st


def cstyle(st):
    if hasattr(st, 'markovChain'):
        m = st.markovChain
        return ['markov', m.order, m.numSteps, m.loopDuration,
                [sorted([lib.ctag(k), sorted([lib.ctag(e), lib.num(p)] for e, p in v.items())] for k, v in d.items())
                 for d in m.transitionTable]]
    return ['database', st.generatePatternOrdering, [snap(p) for p in st.patternList]]


def emptystyle(api, like):
    if like['op'].startswith('db'):
        return api.gsstyles.DatabaseStyle(like.get('ordering', 'indexed'))
    return api.gsstyles.MarkovStyle()


# ---- generating jobs ------------------------------------------------------------------------
SAVES = ['json', 'json', 'json', 'midi', 'midi', 'pickle', 'w2p', 'stylejson', 'stylepickle', 'dbjson', 'dbpickle']


def gsave(r, ops=SAVES, uni=False, big=False):
    op = r.choice(ops)
    job = {'op': op, 'folder': gfolder(r)}
    if op == 'json':
        ct = r.chance(0.4)
        job['opts'] = {'useTagIndexing': r.chance(0.6), 'conserveTuple': ct}
        if r.chance(0.4):
            job['opts']['nameSuffix'] = r.choice(['_1', '.v2', '', '-copy', '.json'])
        job['pattern'] = lib.gpattern(r, uni, 'nested' if ct else 'plain', big=big)
        if r.chance(0.5):
            job['pattern']['vps'] = lib.gvps(r, job['pattern'])
            if not ct:
                _flatten(job['pattern'])
    elif op == 'midi':
        job['pattern'] = lib.gmidipattern(r, uni, big=big)
        job['name'] = r.choice([None, None, 'export', 'export.mid', 'a.b'])
        if r.chance(0.3):
            gtagmap(r, job)
    elif op == 'pickle':
        job['pattern'] = lib.gpattern(r, uni, 'nested', big=big)
        job['pattern']['vps'] = lib.gvps(r, job['pattern'])
        job['pattern']['key'] = r.choice(['C', 'F#m', None])
        job['pattern']['res'] = r.choice([960, 220, 96])
        job['pattern']['start'] = r.choice([0, 4, 1.5])
        job['pattern']['path'] = r.choice([None, '/somewhere/x.mid'])
        if r.chance(0.4):
            job['nameSuffix'] = r.choice(['_1', '.v2', '', '-copy', '.pickle'])
    elif op == 'w2p':
        job['pattern'] = lib.gpattern(r, uni, big=big)
        job['name'] = r.choice(['model', 'a.b', 'initial'])
        job['folder'] = r.choice(['/sim/out/', '/sim/models/x/', 'rel/', '/sim/out', '/sim/models/new/x', 'rel', 'a.b/c d'])
    elif op in ('stylejson', 'stylepickle'):
        job['style'] = gstyle(r)
        job['file'] = r.choice(['/sim/home/style.json', 'style', '/sim/home/s.pickle'])
    else:
        job['patterns'] = [dict(lib.gpattern(r, uni, maxev=5), name='d%d' % k) for k in range(r.rint(1, 4))]
        job['ordering'] = r.choice(['indexed', 'increasing', 'random'])
        job['file'] = r.choice(['/sim/home/db.json', 'db', '/sim/home/db.pickle'])
    if r.chance(0.35):
        job['older'] = r.choice([1, 20, 300, 5000, 60000])      # size of what the new file replaces
    return job


def gtagmap(r, job):
    """Every pitch gets a tag of its own, and most of these tags another pitch in the export."""
    ev = job['pattern']['events']
    pitches = sorted(set(e[2] for e in ev))
    same = [p for p in pitches if r.chance(0.25)]
    free = r.shuffled([p for p in range(128) if p not in same])
    m, tag = {}, {}
    for n, p in enumerate(pitches):
        t = 'T%d' % n
        tag[p] = r.choice([t, t, ['t', t], ['t', 'none', t], ['t', t, 'none']])
        if p not in same:
            q = free.pop()
            m[t] = r.choice([q, q, [q], [q, 1, 2], ['p', q, '*'], [['p', q, 9], 3], [['p', '*', 9], q], ['p', q, 1]])
        elif r.chance(0.5):
            m[t] = r.choice([['p', '*', '*'], p, []])
    for e in ev:
        e[4] = tag[e[2]]
    m['other'] = 1
    job['tagmap'] = m


def mktagmap(m):
    one = lambda x: tuple(native(y) for y in x[1:]) if isinstance(x, list) and x[:1] == ['p'] else \
        [one(y) for y in x] if isinstance(x, list) else x
    return dict((native(k), one(v)) for k, v in m.items())


def mapped(job):
    """The pattern as it must come out: pitches by tag, if a mapping was given."""
    m = job.get('tagmap')
    if not m:
        return job['pattern']

    def pitch(tag, own):
        l = tag if isinstance(tag, list) else [tag]
        for t in l:
            v = m.get(t, [])
            v = [v] if not isinstance(v, list) or v[:1] == ['p'] else v
            for x in v:
                x = x[1] if isinstance(x, list) else x
                if x != '*':
                    return x
        return own
    return dict(job['pattern'], events=[e[:2] + [pitch(e[4], e[2])] + e[3:] for e in job['pattern']['events']])


def _flatten(spec):
    """Descriptors that may give tuples give flat ones: nothing to do; lists of chords are not used."""


# ---- running them ---------------------------------------------------------------------------------
class Prepared(object):
    pass


def prepare(w, job, api=None):
    """Builds the inputs and what was on disk before."""
    q = Prepared()
    api = api or w.api
    q.api, q.job = api, job
    op = job['op']
    q.style = q.pattern = None
    if 'style' in job:
        q.style = mkstyle(api, job['style'])
    elif op in ('dbjson', 'dbpickle'):
        q.style = api.gsstyles.DatabaseStyle(job.get('ordering', 'indexed'))
        q.style.generateStyle([lib.build(api, p) for p in job['patterns']])
    else:
        q.pattern = lib.build(api, job['pattern'])
        if job.get('part'):
            # a viewpoint, rather than the pattern it belongs to
            q.pattern = q.pattern.viewpoints[native(job['part'])]
    w.fs.mkdirs('/sim/home')
    q.path = target(job)
    q.rel = w.fs.norm(q.path)
    if job.get('older'):
        w.fs.put(q.rel, old_content(job))
    return q


def old_content(job):
    n = job['older']
    return (b'{"name":"old content"}' * (n // 20 + 1))[:n]


def target(job):
    op = job['op']
    if op == 'json':
        return os.path.join(job['folder'], native(job.get('part') or job['pattern']['name']) + (job['opts'].get('nameSuffix') or '') + '.json')
    if op == 'midi':
        n = native(job.get('name') or job['pattern']['name'])
        return os.path.join(job['folder'], n if '.mid' in n else n + '.mid')
    if op == 'pickle':
        return os.path.join(job['folder'], native(job.get('part') or job['pattern']['name']) + (job.get('nameSuffix') or '') + '.pickle')
    if op == 'w2p':
        return os.path.join(job['folder'], job['name'] + '.pickle')
    return job['file']


def call(q):
    """The call of gsapi."""
    job, io = q.job, q.api.gsio
    op = job['op']
    if op == 'json':
        opts = dict((str(k), native(v) if k == 'nameSuffix' else v) for k, v in job['opts'].items())
        return io.toJSONFile(q.pattern, job['folder'], **opts)
    if op == 'midi':
        kw = {'midiMap': mktagmap(job['tagmap'])} if job.get('tagmap') else {}
        if job.get('name'):
            kw['name'] = native(job['name'])
        return io.toMidiFile(q.pattern, folderPath=job['folder'], **kw)
    if op == 'pickle':
        if 'nameSuffix' in job:
            return io.toPickleFile(q.pattern, job['folder'], nameSuffix=native(job['nameSuffix']))
        return io.toPickleFile(q.pattern, job['folder'])
    if op == 'w2p':
        return io.write2pickle(native(job['name']), q.pattern, path=job['folder'])
    if op in ('stylejson', 'dbjson'):
        return q.style.saveToJSON(job['file'])
    return q.style.saveToPickle(job['file'])


def returned_path(w, q, ret):
    """The path a save gives back names the file; styles and write2pickle give none."""
    if q.job['op'] in ('json', 'midi', 'pickle'):
        if ret is None or not isinstance(ret, lib.text_types):
            return 'returned %r instead of a path' % (ret,)
        if w.fs.norm(ret) != q.rel:
            return 'returned %s, expected %s' % (ret, q.rel)
        if q.job['op'] != 'midi' and not ret.startswith('/'):
            return 'returned %s, not an absolute path' % ret
    return None


def source(q):
    """What was given to the save, in canonical form, all of it."""
    return cstyle(q.style) if q.style is not None else snap(q.pattern, True)


def expected(q):
    """What loading must give."""
    op = q.job['op']
    if op == 'json':
        return json_expected(q.pattern)
    if op == 'midi':
        return mapped(q.job)
    if op in ('pickle', 'w2p'):
        return snap(q.pattern, True)
    if op == 'dbjson':
        c = cstyle(q.style)
        c[2] = []
        for p in q.style.patternList:
            e = json_expected(p)
            del e['origin']
            c[2].append(e)
        return c
    return cstyle(q.style)


def json_expected(p, parents=()):
    r = snap(p)
    ev = sorted(p.events, key=lambda e: e.startTime)
    r['events'] = [lib.cevent(e) for e in ev]
    r['vp'] = dict((lib.text(k), json_expected(v, (p,) + parents)) for k, v in p.viewpoints.items())
    o = p.originPattern
    # found again by its name among the patterns that contain this one
    found = [k for k, x in enumerate(parents) if o is not None and x is o]
    r['origin'] = found[0] if found else None
    return r


def json_loaded(p, parents=()):
    r = snap(p)
    r['vp'] = dict((lib.text(k), json_loaded(v, (p,) + parents)) for k, v in p.viewpoints.items())
    found = [k for k, x in enumerate(parents) if x is p.originPattern]
    r['origin'] = found[0] if found and p.originPattern is not None else None
    if p.originPattern is not None and not found:
        r['origin'] = 'foreign'
    return r


def load(api, job, path):
    """Load what the job saved; canonical form of what comes back."""
    op = job['op']
    if op == 'json':
        p = api.gsio.fromJSONFile(path, conserveTuple=job['opts']['conserveTuple'])
        return spoil(p, json_loaded(p))
    if op == 'midi':
        return api.gsio.fromMidiFile(path)
    if op in ('pickle', 'w2p'):
        p = api.gsio.fromPickleFile(path)
        return spoil(p, snap(p, True))
    st = emptystyle(api, job)
    if op in ('stylejson', 'dbjson'):
        st.loadFromJSON(path)
    else:
        st.loadFromPickle(path)
    c = cstyle(st)
    if op[:2] == 'st':
        for d in st.markovChain.transitionTable:
            d.clear()
    else:
        for p in st.patternList:
            spoil(p, None)
        del st.patternList[:]
    return c


def spoil(p, ret):
    """The user edits what was loaded; that must not show in later loads."""
    for e in p.events:
        e.pitch += 1
        e.tag = 'spoilt'
    for v in p.viewpoints.values():
        del v.events[:]
    p.viewpoints.clear()
    del p.events[:1]
    p.name = 'spoilt'
    return ret


def edit(q, e):
    """A small edit of what was saved, mostly one that does not change the size of the file."""
    if q.style is not None:
        if hasattr(q.style, 'markovChain'):
            pats = [dict(p, events=[list(x) for x in p['events']]) for p in q.job['style']['patterns']]
            tags = sorted(set(x[4] for p in pats for x in p['events']))
            for p in pats:
                for x in p['events']:
                    if e['what'] == 'velocity' and len(tags) > 1:
                        x[4] = tags[(tags.index(x[4]) + 1) % len(tags)]
                    elif e['what'] == 'pitch':
                        x[0] = p['duration'] - x[0] - x[1]
            if e['what'] == 'duration' and len(pats) > 1:
                pats = pats[1:] + pats[:1] + pats[:1]
            q.style.generateStyle([lib.build(q.api, p) for p in pats])
            return
        p = q.style.patternList[e['n'] % len(q.style.patternList)]
    else:
        p = q.pattern
    spec = q.job.get('pattern') if q.job['op'] == 'midi' else None
    if p.events and e['what'] != 'duration':
        k = e['n'] % len(p.events)
        if e['what'] == 'velocity' or spec:
            p.events[k].velocity = 1 + (p.events[k].velocity + 9) % 90
            if spec:
                spec['events'][k][3] = p.events[k].velocity
        elif e['what'] == 'pitch':
            p.events[k].pitch = 10 + (p.events[k].pitch + 7) % 89
        else:
            p.events[k].tag, p.events[0].tag = p.events[0].tag, p.events[k].tag
    else:
        p.bpm = p.bpm + 1 if p.bpm < 150 else p.bpm - 1
        if spec:
            spec['bpm'] = p.bpm


def compare(exp, got, job):
    """[] or the differences in words."""
    if job['op'] == 'midi':
        return midi_compare(exp, got)
    return lib.differ(exp, got)


# ---- MIDI within a tick ------------------------------------------------------------------------------
def midi_compare(spec, p):
    """A pattern read back, against the data of the one written."""
    out = []
    res = spec['res']
    tick = 1.0 / res
    tol = tick * 1.001
    if p.resolution != res:
        out.append('resolution %r instead of %r' % (p.resolution, res))
    if tuple(p.timeSignature) != tuple(spec['ts']):
        out.append('time signature %r instead of %r' % (tuple(p.timeSignature), tuple(spec['ts'])))
    if abs(6e7 / p.bpm - 6e7 / spec['bpm']) > 1.01:
        out.append('bpm %r instead of %r' % (p.bpm, spec['bpm']))
    if (p.key or None) != (spec.get('key') or None):
        out.append('key %r instead of %r' % (p.key, spec.get('key')))
    last = max([e[0] + e[1] for e in spec['events']] or [0])
    dur = max(spec['duration'], last)
    if dur > tick and abs(p.duration - dur) > tol:
        out.append('duration %r instead of %r' % (p.duration, dur))
    a = sorted(([e[2], e[0], e[1], e[3]] for e in spec['events']), key=lambda x: (x[0], x[1]))
    b = sorted(([e.pitch, e.startTime, e.duration, e.velocity] for e in p.events), key=lambda x: (x[0], x[1]))
    if len(a) != len(b):
        out.append('%d notes instead of %d' % (len(b), len(a)))
        return out
    for x, y in zip(a, b):
        # gsapi reads no note as shorter than 0.0001 beats
        more = tol + (0.0001 if x[2] <= 2 * tick + 0.0001 else 0)
        if x[0] != y[0] or x[3] != y[3] or abs(x[1] - y[1]) > tol or abs(x[2] - y[2]) > more or \
                abs(x[1] + x[2] - y[1] - y[2]) > more:
            out.append('note [pitch, onset, duration, velocity] %r instead of %r (a tick is %r)' % (y, x, tick))
            break
    on = [e.startTime for e in p.events]
    if on != sorted(on):
        out.append('events are not in order of onset')
    return out


def texts(b):
    """What a text in a MIDI file can mean: the format names no encoding."""
    try:
        return [b.decode('latin-1'), b.decode('utf-8')]
    except UnicodeDecodeError:
        return [b.decode('latin-1')]


def midi_file(spec, data):
    """The bytes themselves, by the independent decoder."""
    out = []
    try:
        f = lib.decode_midi(data)
    except lib.BadMidi as e:
        return ['not a standard MIDI file: %s' % e]
    if f['res'] != spec['res']:
        out.append('division %d instead of %d' % (f['res'], spec['res']))
    notes = []
    try:
        for t in f['tracks']:
            notes += lib.midi_notes(t)
    except lib.BadMidi as e:
        return [str(e)]
    want = sorted((e[2], e[0], e[0] + e[1], e[3]) for e in spec['events'])
    got = sorted(((n[2], n[0], n[1], n[3]) for n in notes), key=lambda x: x[:3])
    if len(want) != len(got):
        return ['%d notes in the file instead of %d' % (len(got), len(want))]
    res = spec['res']
    for a, b in zip(want, got):
        if a[0] != b[0] or a[3] != b[3] or abs(a[1] * res - b[1]) > 1.001 or abs(a[2] * res - b[2]) > 1.001:
            out.append('note in the file [pitch, on tick, off tick, velocity] %r instead of %r' %
                       (list(b), [a[0], a[1] * res, a[2] * res, a[3]]))
            break
    end = max(t[-1][0] for t in f['tracks'])
    dur = max([spec['duration']] + [e[0] + e[1] for e in spec['events']]) * res
    if abs(end - dur) > 1.001:
        out.append('end of track at %d instead of %r' % (end, dur))
    metas = {}
    for t in f['tracks']:
        for e in t:
            if e[1] == 'meta':
                metas.setdefault(e[2], []).append(e)
    if len(metas.get(0x51, [])) != 1 or metas[0x51][0][0] != 0 or len(metas[0x51][0][3]) != 3:
        out.append('tempo events: %r' % metas.get(0x51))
    else:
        d = metas[0x51][0][3]
        q = d[0] << 16 | d[1] << 8 | d[2]
        if abs(q - 6e7 / spec['bpm']) > 1.01:
            out.append('tempo %d instead of %r' % (q, 6e7 / spec['bpm']))
    names = metas.get(3, [])
    if len(names) != 1 or lib.text(spec['name']) not in texts(bytes(bytearray(names[0][3]))):
        out.append('track name events: %r' % names)
    ts = metas.get(0x58, [])
    if len(ts) != 1 or ts[0][0] != 0 or ts[0][3][0] != spec['ts'][0] or 2 ** ts[0][3][1] != spec['ts'][1]:
        out.append('time signature events: %r' % ts)
    return out


# ---- loads --------------------------------------------------------------------------------------
def gload(r, uni=False, ops_=None):
    """A job that reads: a file written by a save, or a folder of MIDI files."""
    if r.chance(0.25):
        return gcollection(r)
    job = gsave(r, ops_ or SAVES, uni)
    job.pop('older', None)
    return {'op': 'load', 'of': job}


MAPS = [None, None, 'simpleDrumMap', {'Kick': 36, 'Snare': [38, 40], 'Hat': [[42, '*'], [44, 1]]},
        {'Low': [[36, 1], 35], 'Any': [['*', 2]], 'Kick': [36]}, {'x': [60, 61, 62], 'y': 62}]


def gcollection(r, nmax=6):
    files = []
    names = r.sample(['a', 'b', 'c1', 'zz', 'B', 'loop.2', '10', '9', 'x y', '_', 'kick'], r.rint(1, nmax))
    for n in names:
        p = lib.gmidipattern(r, maxev=6, short=True)
        p['name'] = n
        files.append({'name': n + '.mid', 'pattern': p})
    others = []
    for n in r.sample(['notes.txt', 'a.midi', 'x.mid.bak', 'sub/deep.mid', 'mid', '.hidden.mid', 'q.MID'], r.rint(0, 3)):
        others.append(n)
    job = {'op': r.choice(['collection', 'collection', 'dataset']), 'folder': r.choice(['/sim/midi', '/sim/in put', 'loops']),
           'files': files, 'others': others, 'map': r.choice(MAPS)}
    if job['op'] == 'collection':
        job['length'] = r.choice([0, 0, 0, 4, 1.5])
    else:
        job['overlap'] = r.chance(0.5)
        job['glob'] = r.choice(['*.mid', '*', '*.mid'])
        if job['map'] is None:
            job['map'] = 'simpleDrumMap'
    return job


def encode_midi(spec, channel=0):
    """A pattern's data as a MIDI file, by the independent encoder."""
    import struct
    res = spec['res']
    ev = []
    n = 0
    for s, d, p, v, t in spec['events']:
        a, b = int(round(s * res)), int(round((s + d) * res))
        ev.append((a, 1, n, [0x90 | channel, p, v]))
        ev.append((b, 0, n, [0x80 | channel, p, 0]))
        n += 1
    ev.sort()
    out = bytearray()
    tick = 0
    q = int(6e7 / spec['bpm'])
    out += bytearray([0, 0xff, 0x51, 3, q >> 16 & 255, q >> 8 & 255, q & 255])
    k = [1, 2, 4, 8, 16, 32, 64].index(spec['ts'][1])
    out += bytearray([0, 0xff, 0x58, 4, spec['ts'][0], k, 24, 8])
    for a, _, _, b in ev:
        out += bytearray(lib.varlen(a - tick)) + bytearray(b)
        tick = a
    end = max(tick, int(round(spec['duration'] * res)))
    out += bytearray(lib.varlen(end - tick)) + bytearray([0xff, 0x2f, 0])
    return b'MThd' + struct.pack('>LHHH', 6, 1, 1, res) + b'MTrk' + struct.pack('>L', len(out)) + bytes(out)


def mkmap(api, m):
    """The mapping as the caller would write it."""
    if m is None:
        return 'pitchName'
    if m in ('simpleDrumMap', 'verySimpleDrumMap'):
        return getattr(api.gsdefs, m)
    if isinstance(m, list):
        return [native(x) for x in m]
    d = {}
    for k, v in m.items():
        if isinstance(v, list):
            v = [tuple(x) if isinstance(x, list) else x for x in v]
        d[native(k)] = v
    return d


def prepare_load(w, job, api=None):
    q = Prepared()
    api = api or w.api
    q.api, q.job = api, job
    q.pattern = q.style = None
    if job['op'] == 'load':
        inner = prepare(w, job['of'])
        w.fs.begin('setup')
        ret = call(inner)
        w.fs.end()
        q.path = ret or inner.path
        q.rel = inner.rel
        op = job['of']['op']
        q.style = emptystyle(api, job['of']) if op[:2] in ('st', 'db') else None
        if op == 'midi':
            q.map = mkmap(api, job.get('map'))
    else:
        q.path = q.rel = None
        folder = w.fs.norm(job['folder'])
        w.fs.mkdirs(folder)
        for f in job['files']:
            w.fs.put(folder + '/' + f['name'], encode_midi(f['pattern'], f.get('channel', 0)))
        for f in job['others']:
            w.fs.put(folder + '/' + f, b'not for you')
        q.map = mkmap(api, job['map'])
    return q


def call_load(q):
    job, io = q.job, q.api.gsio
    if job['op'] == 'load':
        j = job['of']
        op = j['op']
        if op == 'json':
            return json_loaded(io.fromJSONFile(q.path, conserveTuple=j['opts']['conserveTuple']))
        if op == 'midi':
            return snap(io.fromMidiFile(q.path, q.map), True)
        if op in ('pickle', 'w2p'):
            return snap(io.fromPickleFile(q.path), True)
        if op in ('stylejson', 'dbjson'):
            q.style.loadFromJSON(q.path)
        else:
            q.style.loadFromPickle(q.path)
        return cstyle(q.style)
    if job['op'] == 'collection':
        l = io.fromMidiCollection(os.path.join(job['folder'], '*.mid'), q.map, desiredLength=job['length'])
        return sorted([snap(p, True) for p in l], key=lib.digest)
    d = q.api.gsdataset.Dataset(midiFolder=job['folder'], midiGlob=job['glob'], midiMap=q.map,
                                checkForOverlapped=job['overlap'])
    return sorted([snap(p, True) for p in d.patterns], key=lib.digest)


def is_load(job):
    return job['op'] in ('load', 'collection', 'dataset')
