# -*- coding: utf-8 -*-
"""C09: folders of MIDI files as collections and datasets, while files come and go between the calls and reads fail."""
from __future__ import absolute_import, division, print_function

import lib
import ops
from props.history import genfs, mkworld
from prng import mix

RUNS = {'quick': 8000, 'thorough': 70000}
JRUNS = {'quick': 60, 'thorough': 1500}
RULE = ('a run is a history of collection imports, datasets, re-imports, slicings and failing attempts over a folder in which files are '
        'added, replaced and removed in between; non-trivial: a folder with at least one matching file was imported; distinct: scenario differs')
MEASURE = 'operation x number of matching files x directory order x what changed before it x fault'
REAL = ['gsapi.gsio', 'gsapi.gsdataset', 'gsapi.midiio', 'gsapi.gspattern', 'glob', 'fnmatch', 'io buffering']
STUB = ['disk: in-memory file system with seeded directory order (sim/simfs.py)', 'the writer of the files: an independent encoder']
ASSUMPTIONS = ['folders that are imported are named without glob characters (folders and files that are searched are not)', 'errors in listing a folder are left out: glob itself swallows them']

NAMES = ['a', 'b', 'c1', 'zz', 'B', 'loop.2', '10', '9', 'x y', '_', 'kick', 'a2', 'ab', 'song.mid', 'b-side']
GLOBS = ['*.mid', '*', '*.mid', 'a*', 'a*.mid', '?', 'b', 'kick.mid', '*.2', 'none*', '[ab]*']
OTHERS = ['notes.txt', 'a.midi', 'x.mid.bak', 'sub/deep.mid', 'mid', '.hidden.mid', 'a.wav', 'br[1]/a.mid', 'br[1]/k[1].mid', 'k[1].wav', 'k1.wav']


def gpat(r):
    p = lib.gmidipattern(r, maxev=6, short=True)
    return p


def gen(r, tier, i):
    s = {'seed': r.below(1 << 30), 'fs': genfs(r), 'folder': r.choice(['/sim/midi', '/sim/in put', 'loops', '/sim/deep/er/x']),
         'files': [], 'others': r.sample(OTHERS, r.rint(0, 3)), 'ops': [], 'map': r.choice(ops.MAPS + ['verySimpleDrumMap'])}
    for n in r.sample(NAMES, r.rint(0, 6)) if r.chance(0.98) else ['n%d' % k for k in r.sample(list(range(200)), r.choice([20, 70]))]:
        s['files'].append({'name': n + '.mid', 'pattern': gpat(r)})
    for k in range(r.weighted([(5, r.rint(1, 5)), (1, r.rint(6, 12))])):
        what = r.weighted([(4, 'collection'), (4, 'dataset'), (2, 'reimport'), (1.5, 'slices'), (1, 'viewpoint'), (3, 'add'), (2, 'nudge'), (1, 'break'), (2, 'remove'), (1, 'restart'), (2, 'search')])
        op = {'do': what, 'glob': r.choice(GLOBS)}
        if what == 'reimport':
            # often of what was imported last, after some change
            last = [x for x in s['ops'] if x['do'] in ('dataset', 'reimport')]
            if not last:
                last = [{'do': 'dataset', 'glob': r.choice(GLOBS), 'length': 0, 'overlap': False, 'slash': False}]
                s['ops'] += last
            if r.chance(0.6):
                g = last[-1]['glob']
                op['glob'] = g if g.endswith('.mid') and r.chance(0.5) else g[:-4] if g.endswith('.mid') else g + '.mid'
            if r.chance(0.5):
                s['ops'].append(r.choice([{'do': 'add', 'glob': '*', 'file': {'name': r.choice(NAMES) + '.mid', 'pattern': gpat(r)}},
                                          {'do': 'remove', 'glob': '*', 'n': r.below(20), 'keep': 0}, {'do': 'nudge', 'glob': '*', 'n': r.below(20), 'keep': 0}]))
        if what == 'add':
            op['file'] = {'name': r.choice(NAMES) + '.mid', 'pattern': gpat(r)}
        elif what in ('remove', 'nudge', 'break'):
            op['n'] = r.below(20)
            op['keep'] = r.choice([0, 0, r.float()])
        elif what == 'slices':
            op['length'] = r.choice([1, 4, 2.5])
            op['of'] = r.chance(0.6)
            op['empty'] = r.chance(0.4)
        elif what == 'viewpoint':
            op['how'] = r.choice([['v', 'density', 4], ['v', 'density', 1], ['v', 'tags', 'perEvent'], ['v', 'density', 'all']])
        elif what == 'search':
            one = lambda: r.choice(['', '', '/', r.choice(NAMES) + '.mid', r.choice(NAMES) + '.mid', 'sub', 'notes.txt', 'nothing', 'br[1]', 'br[1]'])
            op['paths'] = one() if r.chance(0.5) else [one() for _ in range(r.rint(0, 3))]
            op['suffix'] = r.choice([None, '.mid', '.txt', 'd', '.wav', ['.mid'], ['.txt', '.mid'], ['.mid', 'mid', '.midi'], [], '', '2.mid', '].mid', '*', '?.mid'])
            op['match'] = [r.choice(NAMES + OTHERS + ['k[1].mid']), r.choice([None, '.mid', '.txt', '.wav']), r.choice([None, '.mid', '.txt'])]
        else:
            op['length'] = r.choice([0, 0, 4, 1.5])
            op['overlap'] = r.chance(0.5)
            op['slash'] = r.chance(0.3)
            if what == 'collection' and r.chance(0.4):
                op['opts'] = r.choice([{'tracksToGet': [0]}, {'tracksToGet': [1]}, {'tracksToGet': ['x']}, {'filterOutNotMapped': False}, {'tagFromTrackName': True},
                                       {'tracksToGet': [0], 'filterOutNotMapped': False}, {'tracksToGet': [r.choice(s['files'])['pattern']['name']] if s['files'] else []}])
            if what in ('collection', 'dataset') and r.chance(0.3):
                op['fault'] = {'on': r.choice(['open', 'read']), 'kind': r.choice(['eio', 'enoent', 'eacces', 'emfile', 'interrupt']), 'at': r.float()}
        if what == 'slices' and op['of'] and r.chance(0.8):
            if not any(o['do'] == 'dataset' for o in s['ops']):
                s['ops'].append({'do': 'dataset', 'glob': '*', 'length': 0, 'overlap': False, 'slash': False})
            s['ops'].append({'do': 'viewpoint', 'glob': '*', 'how': r.choice([['v', 'density', 4], ['v', 'density', 1], ['v', 'tags', 'perEvent'], ['v', 'density', 'all']])})
        s['ops'].append(op)
    if not any(op['do'] in ('collection', 'dataset') for op in s['ops']):
        s['ops'].append({'do': r.choice(['collection', 'dataset']), 'glob': '*', 'length': 0, 'overlap': False, 'slash': False})
    return s


def matches(glob, name):
    """The five forms used here, by hand."""
    if name.startswith('.') or not name.endswith('.mid'):
        return False
    g = glob[:-4] if glob.endswith('.mid') else glob
    base = name[:-4]
    if g == '*':
        return True
    if g == 'a*':
        return base.startswith('a')
    if g == '[ab]*':
        return base[:1] in ('a', 'b')
    if g == '?':
        return len(base) == 1
    if g == '*.2':
        return base.endswith('.2')
    if g == 'none*':
        return base.startswith('none')
    return base == g


def run(s, o):
    folder = None
    with mkworld(s) as w:
        folder = w.fs.norm(s['folder'])
        w.fs.mkdirs(folder)
        disk = {}
        broken = set()
        for f in s['files']:
            put(w, folder, disk, f)
        for n in s['others']:
            w.fs.put(folder + '/' + n, b'not for you')
        m = ops.mkmap(w.api, s['map'])
        d = None
        changed = 'nothing'
        handed = []     # what imports gave, as it was
        for k, op in enumerate(s['ops']):
            io = w.api.gsio
            what = op['do']
            o.steps += 1
            for l, was in handed:
                if lib.digest([lib.snap(x, True) for x in l]) != was:
                    o.bad('earlier result', 'before step %d (%s) what an earlier import gave is no more what it was: %s' % (k, what, [p.name for p in l]))
                    return
            if what == 'add':
                put(w, folder, disk, op['file'])
                broken.discard(op['file']['name'])
                changed = 'added'
                continue
            if what == 'break':
                # only the beginning of the file is left
                if disk:
                    n = sorted(disk)[op['n'] % len(disk)]
                    b = w.fs.get(folder + '/' + n)
                    w.fs.put(folder + '/' + n, b[:int(op['keep'] * len(b))])
                    broken.add(n)
                    changed = 'broken'
                continue
            if what == 'nudge':
                # other content of the same size
                if disk:
                    n = sorted(disk)[op['n'] % len(disk)]
                    f = disk[n]
                    broken.discard(n)
                    put(w, folder, disk, {'name': n, 'pattern': dict(f, events=[[e[0], e[1], e[2], 128 - e[3], e[4]] for e in f['events']])})
                    changed = 'replaced'
                continue
            if what == 'remove':
                if disk:
                    n = sorted(disk)[op['n'] % len(disk)]
                    del disk[n]
                    broken.discard(n)
                    del w.fs.files[folder + '/' + n]
                    changed = 'removed'
                continue
            if what == 'restart':
                w.boot()
                m = ops.mkmap(w.api, s['map'])
                d = None
                handed = []
                continue
            if what == 'slices':
                if d is not None:
                    kw = {}
                    if op.get('of') and d.patterns and all('v' in p.viewpoints for p in d.patterns):
                        kw['viewpointName'] = 'v'
                        o.probe('slices of viewpoints')
                    if op.get('empty'):
                        kw['supressEmptyPattern'] = False
                    snap = lambda x: None if x is None else lib.snap(x, True)
                    same(o, 'getAllSliceOfDuration(%s, %s)' % (op['length'], kw), [snap(x) for x in d.getAllSliceOfDuration(op['length'], **kw)],
                         [snap(x) for p in d.patterns for x in p.copy().splitInEqualLengthPatterns(op['length'], **kw)])
                continue
            if what == 'viewpoint':
                if d is not None:
                    name, desc, sl = op.get('how', ['v', 'density', 4])
                    copies = [p.copy() for p in d.patterns]
                    d.generateViewpoint(name, lib.descriptor(w.api, desc), sl)
                    for p, c in zip(d.patterns, copies):
                        if p.viewpoints[name].originPattern is not p:
                            o.bad('viewpoint', 'a viewpoint of %s belongs to another pattern' % p.name)
                            return
                        c.generateViewpoint(name, lib.descriptor(w.api, desc), sl)
                    same(o, 'generateViewpoint', [lib.snap(p, True) for p in d.patterns], [lib.snap(c, True) for c in copies])
                    handed = []
                continue
            if what == 'search':
                if not search(w, s, op, o):
                    return
                continue
            want = sorted(n for n in disk if matches(op['glob'], n))
            bad = [n for n in want if n in broken]
            if bad:
                w.fs.begin(k)
                try:
                    if what == 'reimport':
                        if d is None:
                            continue
                        d.importMidi(op['glob'])
                    else:
                        attempt(w, s, op, m)
                except Exception as e:
                    if type(e).__name__ in ('Stuck', 'Hang'):
                        raise
                    o.probe('broken file, raised')
                else:
                    o.bad('broken file skipped', '%s of %s returned although %s cannot be read' % (what, op['glob'], bad))
                    return
                finally:
                    w.fs.end()
                continue
            if 'fault' in op and what in ('collection', 'dataset'):
                if not failing(w, s, op, folder, want, m, k, o):
                    return
            dm = m if what == 'collection' or s['map'] is not None else w.api.gsdefs.simpleDrumMap
            if what == 'collection':
                g = op['glob'] if op['glob'].endswith('.mid') else op['glob'] + '.mid'
                opts = op.get('opts', {})
                w.fs.begin(k)
                got = io.fromMidiCollection(s['folder'] + '/' + g, m, desiredLength=op['length'], **opts)
                w.fs.end()
                exp = []
                for n in want:
                    p = io.fromMidiFile(folder + '/' + n, ops.mkmap(w.api, s['map']), **opts)
                    exp += p.splitInEqualLengthPatterns(op['length']) if op['length'] else [p]
                if not same(o, 'fromMidiCollection(%s)' % g, [lib.snap(x, True) for x in got], [lib.snap(x, True) for x in exp]):
                    return
            else:
                if what == 'reimport':
                    if d is None:
                        continue
                    w.fs.begin(k)
                    ret = d.importMidi(op['glob'])
                    w.fs.end()
                    if ret is not d.patterns:
                        o.bad('patterns', 'importMidi returns something else than the patterns of the dataset')
                        return
                else:
                    over = op['overlap']
                    w.fs.begin(k)
                    d = w.api.gsdataset.Dataset(midiFolder=s['folder'] + ('/' if op['slash'] else ''), midiGlob=op['glob'], midiMap=dm,
                                                checkForOverlapped=over)
                    w.fs.end()
                exp = [io.fromMidiFile(folder + '/' + n, dm, checkForOverlapped=over) for n in want]
                if not same(o, '%s(%s)' % (what, op['glob']), [lib.snap(x, True) for x in d.patterns], [lib.snap(x, True) for x in exp]):
                    return
                if sorted(d.files) != [folder + '/' + n for n in want]:
                    o.bad('files', 'files are %s instead of %s' % (d.files, want))
                    return
                names = [x[x.rfind('/') + 1:] for x in d.files]
                if [p.name for p in d.patterns] != names or [d[j].name for j in range(len(names))] != names:
                    o.bad('order', 'pattern k does not come from file k: %s, %s' % ([p.name for p in d.patterns], names))
                    return
                if names and not 0 <= d.idx < len(names):
                    o.bad('index', 'index %r of %d files' % (d.idx, len(names)))
                    return
            handed.append((d.patterns if what != 'collection' else got, lib.digest([lib.snap(x, True) for x in (d.patterns if what != 'collection' else got)])))
            # and each is what was written
            for p in (d.patterns if what != 'collection' else got if not op['length'] else []):
                spec = disk[p.name]
                if s['map'] is None and what == 'collection' and not opts:
                    e = ops.midi_compare(dict(spec, key=None), p)
                    if e:
                        o.bad('content', '%s: %s' % (p.name, '; '.join(e)))
                        return
            if want:
                o.nontrivial = True
            o.probe('%d files' % len(want))
            o.sigs.append(mix(what, ' '.join(w.fs.order(folder, want)), changed, repr(op['length']), repr(op['overlap'])))
            o.note(k, what, len(want))


def search(w, s, op, o):
    """Files by suffix: each one once, sorted, whatever order the disk gives."""
    fs, root = w.fs, s['folder']

    def one(path, suffix):
        full = fs.norm(path)
        fits = lambda n: suffix is None or any(n.endswith(x) for x in (suffix if isinstance(suffix, list) else [suffix]))
        if full in fs.files:
            return [path] if fits(path) else []
        if full not in fs.dirs:
            return None
        return [path.rstrip('/') + '/' + n for n in [f[len(full) + 1:] for f in fs.files if f.startswith(full + '/')]
                if '/' not in n and not n.startswith('.') and fits(n)]
    suffix = [lib.native(x) for x in op['suffix']] if isinstance(op['suffix'], list) else lib.native(op['suffix'])
    single = not isinstance(op['paths'], list)
    paths = [lib.native(root if x == '' else root + x if x == '/' else root + '/' + x) for x in ([op['paths']] if single else op['paths'])]
    exp = []
    for x in paths:
        l = one(x, suffix)
        exp = None if l is None or exp is None else exp + l
    want = None if exp is None else sorted(set(exp))
    given = paths[0] if single else paths
    try:
        got = w.api.gsutil.search_files(given, suffix)
    except (IOError, OSError):
        got = None
    if got != want:
        o.bad('search', 'search_files(%r, %r) gives %s instead of %s' % (op['paths'], suffix, got, want))
        return False
    if got:
        o.probe('searched')
    # and of those the ones that belong to a name
    name, s1, s2 = [lib.native(x) for x in op['match']]
    cut = lambda n, x: n[:-len(x)] if x is not None and n.endswith(x) else n
    base = cut(name, s1)
    base = base[base.rfind('/') + 1:]
    exp = [n for n in got or [] if cut(n, s2)[cut(n, s2).rfind('/') + 1:] == base and (s2 is None or n.endswith(s2))]
    m = w.api.gsutil.match_files(name, got or [], s1, s2)
    if m != exp:
        o.bad('match', 'match_files(%r, %s, %r, %r) gives %s instead of %s' % (name, got, s1, s2, m, exp))
        return False
    o.note('search', len(got or []), len(m))
    return True


def attempt(w, s, op, m):
    if op['do'] == 'collection':
        g = op['glob'] if op['glob'].endswith('.mid') else op['glob'] + '.mid'
        return w.api.gsio.fromMidiCollection(s['folder'] + '/' + g, m, desiredLength=op['length'])
    return w.api.gsdataset.Dataset(midiFolder=s['folder'], midiGlob=op['glob'], midiMap=m if s['map'] is not None else w.api.gsdefs.simpleDrumMap,
                                   checkForOverlapped=op['overlap']).patterns


def failing(w, s, op, folder, want, m, k, o):
    """One attempt with a fault: it raises, or nothing failed."""
    f = op['fault']
    w.fs.faults = {}
    tag = ('f', k)

    def go():
        return attempt(w, s, op, m)
    n0 = len(w.fs.ops)
    w.fs.begin(('dry', k))
    go()
    w.fs.end()
    places = [n for c, n, kind, p, size in w.fs.ops[n0:] if kind == f['on']]
    if not places:
        return True
    n = places[min(len(places) - 1, int(f['at'] * len(places)))]
    w.fs.faults = {(tag, n): {'kind': f['kind']}}
    before = dict(w.fs.fired)
    w.fs.begin(tag)
    try:
        go()
    except (Exception, KeyboardInterrupt):
        ok = True
    else:
        ok = False
    w.fs.end()
    w.fs.faults = {}
    fired = dict((x, v - before.get(x, 0)) for x, v in w.fs.fired.items() if v > before.get(x, 0))
    o.fired(fired)
    if fired and not ok:
        o.bad('failing file skipped', '%s of %s returned although a file could not be read (%s)' % (op['do'], op['glob'], sorted(fired)))
        return False
    return True


def put(w, folder, disk, f):
    disk[f['name']] = dict(f['pattern'], name=f['name'])
    w.fs.put(folder + '/' + f['name'], ops.encode_midi(f['pattern']))


def same(o, what, got, exp):
    a, b = sorted(got, key=lib.digest), sorted(exp, key=lib.digest)
    d = lib.differ(b, a)
    if d:
        o.bad('wrong patterns', '%s: %d patterns instead of %d: %s' % (what, len(got), len(exp), '; '.join(d)))
        return False
    return True
