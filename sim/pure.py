# -*- coding: utf-8 -*-
"""
The operations of gsapi on a pattern in memory, as data.

READ: those that are there to look at a pattern or to make another one from it.
EDIT: those that are there to change it.
apply() gives the result in canonical form; an exception is a result too.
"""
from __future__ import absolute_import, division, print_function

import copy
import sys

import lib
import ops
from lib import native, snap

NOTAG = 'no such tag'


def canon(x, full=True):
    if x is None or isinstance(x, bool):
        return repr(x)
    if hasattr(x, 'viewpoints'):
        return snap(x, full)
    if hasattr(x, 'startTime'):
        return lib.cevent(x) + [None if x.originPattern is None else snap(x.originPattern)]
    if isinstance(x, (set, frozenset)):
        return ['set'] + sorted((canon(y) for y in x), key=lib.digest)
    if isinstance(x, (list, tuple)):
        return [type(x).__name__ if type(x).__name__ != 'ChordTag' else 'tuple'] + [canon(y) for y in x]
    if isinstance(x, dict):
        return ['dict'] + sorted(([canon(k), canon(v)] for k, v in x.items()), key=lib.digest)
    return lib.ctag(x)


def tag(api, a):
    return lib.mktag(api, a['tag']) if 'tag' in a else NOTAG


def opt(a, **kw):
    """name=(value, documented default): every second time, what has its default is left out."""
    drop = int(lib.digest(a), 16) % 2
    return dict((k, v) for k, (v, d) in kw.items() if not (drop and v == d))


def nocopy(api, p, a):
    """Filters that are told not to copy give the events themselves."""
    res = [p.getPatternWithTags(tag(api, a), makeCopy=False, **opt(a, exactSearch=(a['exact'], True))),
           p.getPatternWithoutTags(tag(api, a), makeCopy=False, **opt(a, exactSearch=(a['exact'], False))),
           p.getPatternWithPitch(p.events[0].pitch if p.events else 60, makeCopy=False)]
    return [res, [[[k for k, y in enumerate(p.events) if y is e][:1] for e in x.events] for x in res]]


def unlike(api, p, a):
    """Is it equal to copies of which one thing was changed? (never)"""
    out = []
    for f, by in (('duration', 1), ('startTime', 0.5), ('timeSignature', None)):
        c = p.copy()
        setattr(c, f, (7, 8) if by is None else getattr(c, f) + by)
        out.append([f, p == c, c == p, not p != c])
    if p.events:
        n = a['n'] % len(p.events)
        for f, by in (('startTime', 0.25), ('duration', 0.25), ('pitch', 1), ('velocity', -1), ('tag', None)):
            c = p.copy()
            e = c.events[n]
            setattr(e, f, 'no such tag' if by is None else getattr(e, f) + by)
            out.append([f, p == c, c == p, not p != c, p.events[n] == e, not e != p.events[n]])
        c = p.copy()
        del c.events[n]
        out.append(['one less', p == c, c == p, not p != c])
    return out


READ = {
    'active': lambda api, p, a: p.activeEventsAtTime(a['t']),
    'starting': lambda api, p, a: p.getStartingEventsAtTime(a['t'], **opt(a, tolerance=(a['tol'], 0))),
    'identical': lambda api, p, a: p.getIdenticalEvents(p.events[a['n'] % len(p.events)], **opt(a, allTagsMustBeEquals=(a['all'], True))) if p.events else [],
    'filled': lambda api, p, a: p.getFilledWithSilences(**opt(a, maxSilenceTime=(a['max'], 0), perTag=(a['per'], False), silenceTag=('silence', 'silence'))),
    'lastoff': lambda api, p, a: p.lastNoteOff(),
    'slice': lambda api, p, a: p.patternFromTimeSlice(a['t'], a['len'], **opt(a, trimEnd=(a['trim'], True))),
    'tags': lambda api, p, a: p.getAllTags(),
    'pitches': lambda api, p, a: list(p.getAllPitches()),
    'withtags': lambda api, p, a: p.getPatternWithTags(tag(api, a), **opt(a, exactSearch=(a['exact'], True))),
    'withlist': lambda api, p, a: p.getPatternWithTags([tag(api, a), 'Kick'], False),
    'withfn': lambda api, p, a: p.getPatternWithTags(lambda t: len(t) % 2 == 0),
    'withpitch': lambda api, p, a: p.getPatternWithPitch(a['pitch']),
    'without': lambda api, p, a: p.getPatternWithoutTags(tag(api, a), **opt(a, exactSearch=(a['exact'], False))),
    'withoutlist': lambda api, p, a: p.getPatternWithoutTags([tag(api, a), 'Kick']),
    'split': lambda api, p, a: p.splitInEqualLengthPatterns(a['len'], **opt(a, supressEmptyPattern=(a['sup'], True))),
    'splitvp': lambda api, p, a: p.splitInEqualLengthPatterns(a['len'], viewpointName=sorted(p.viewpoints)[0]) if p.viewpoints else None,
    'jsondict': lambda api, p, a: p.toJSONDict(**opt(a, useTagIndexing=(a['idx'], True))),
    'grid': lambda api, p, a: grid(p, a['step']),
    'nocopy': nocopy,
    'unlike': unlike,
    'copy': lambda api, p, a: p.copy(),
    'bare': lambda api, p, a: p.copyWithoutEvents(),
    'list': lambda api, p, a: api.gspattern.patternToList(p),
    'repr': lambda api, p, a: [repr(p), str(p)],
    'eq': lambda api, p, a: [p == p.copy(), p != p.copy(), p == 3, len(p), bool(p)],
    'items': lambda api, p, a: [p[k] for k in range(len(p))],
    'iter': lambda api, p, a: [e.endTime() for e in p],
    'events': lambda api, p, a: [[e.containsTime(a['t']), e.isTag(tag(api, a)), e.hasOneOfTags((tag(api, a), 'Kick')), repr(e), e.copy(),
                                  [e.hasCommonTagWith(x) for x in p.events[:3]], [e == x for x in p.events[:3]]] for e in p.events],
    'cut': lambda api, p, a: [e.cutInSteps(a['step']) for e in p.events],
    'density': lambda api, p, a: api.gsdescriptors.Density().getDescriptorForPattern(p),
    'density2': lambda api, p, a: api.gsdescriptors.Density(ignoredTags=['Snare'], includedTags=['Kick', tag(api, a)]).getDescriptorForPattern(p),
    'density3': lambda api, p, a: api.gsdescriptors.Density(includedTags=included(api, a)).getDescriptorForPattern(p),
    'ntags2': lambda api, p, a: api.gsdescriptors.NumberOfTags(includedTags=included(api, a)).getDescriptorForPattern(p),
    'ntags3': lambda api, p, a: api.gsdescriptors.NumberOfTags(ignoredTags=included(api, a)).getDescriptorForPattern(p),
    'ntags': lambda api, p, a: api.gsdescriptors.NumberOfTags().getDescriptorForPattern(p),
    'sync': lambda api, p, a: api.gsdescriptors.Syncopation().getDescriptorForPattern(p),
    'chord': lambda api, p, a: api.gsdescriptors.Chord(**opt(a, forceMajMin=(a['mm'], False), allowDuplicates=(a['dup'], False))).getDescriptorForPattern(p),
    'space': lambda api, p, a: api.gsextractors.DensityDrumSpace().getFeatureSpace(p),
    'learn': lambda api, p, a: ops.cstyle(learn(api, [p], a)),
    'learngen': lambda api, p, a: learn(api, [p, p], a).generatePattern(a['seed']),
    'json': lambda api, p, a: api.gsio.toJSONFile(p, a['folder'], useTagIndexing=a['idx'], conserveTuple=a['ct']),
    'midi': lambda api, p, a: api.gsio.toMidiFile(p, folderPath=a['folder']),
    'pickle': lambda api, p, a: api.gsio.toPickleFile(p, a['folder']),
    'w2p': lambda api, p, a: api.gsio.write2pickle('w', p, path=a['folder']),
    'chordify': lambda api, p, a: chordify(api, p),
    'tagcmp': lambda api, p, a: [e.allTagsAreEqualWith(x) for e in p.events[:4] for x in p.events],
}


def chordify(api, p):
    c = api.gstransformers.Chordify(p)
    if c.events is not c.outputPattern.events or c.numChords != len(c.events) or c.duration != c.outputPattern.duration:
        return 'not the chords of the pattern it made'
    return [c.outputPattern, [[x.startTime, x.duration, list(x.tag), [list(y) for y in x.components]] for x in c.events]]


def grid(p, step):
    return sys.stdout.printed(lambda: p.printASCIIGrid(**opt([step], blockSize=(step, 1))))


# ---- looking at a Markov style ------------------------------------------------------------
def table(t):
    return [sorted([canon(k), sorted([canon(x), lib.num(y)] for x, y in v.items())] for k, v in d.items()) for d in t]


def state(st):
    x = st.getInternalState()['markovChain']
    return [x['order'], x['numSteps'], x['loopDuration'],
            [sorted([canon(p), sorted([canon(e), lib.num(y)] for e, y in l)] for p, l in t) for t in x['transitionTable']]]


def matrix(m, k):
    x, rows, cols = m.getMatrixAtStep(k)
    return sorted([canon(rows[i]), sorted([canon(cols[j]), lib.num(x[i][j])] for j in range(len(cols)) if x[i][j])] for i in range(len(rows)))


STYLE = {
    'gen': lambda api, st, a: st.generatePattern(a['seed']),
    'gen2': lambda api, st, a: [snap(st.generatePattern(a['seed'] + k)) for k in range(3)],
    'state': lambda api, st, a: state(st),
    'strings': lambda api, st, a: [x if a['json'] else sorted(repr(x)) for x in st.markovChain.getStringTransitionTable(a['reduce'], a['json'])],
    'stylerepr': lambda api, st, a: repr(st.markovChain),
    'states': lambda api, st, a: st.markovChain.getAllPossibleStates(),
    'atstep': lambda api, st, a: [st.markovChain.getAllPossibleStatesAtStep(a['n']), st.markovChain.getPossibleInStatesAtStep(a['n']),
                                  st.markovChain.getPossibleOutStatesAtStep(a['n'])],
    'matrix': lambda api, st, a: [matrix(st.markovChain, a['n']), st.markovChain.getMatrixAtStep(a['n'])],
    'config': lambda api, st, a: [st.markovChain.getMarkovConfig(), st.isBuilt()],
    'stylecopy': lambda api, st, a: ops.cstyle(copy.deepcopy(st)),
    'stylejson': lambda api, st, a: st.saveToJSON(a['file']),
    'stylepickle': lambda api, st, a: st.saveToPickle(a['file']),
}


def gstyleop(r, steps, only=None):
    return {'k': r.choice(only or sorted(STYLE)), 'a': {'seed': r.below(1000), 'reduce': r.chance(0.5), 'json': r.chance(0.5), 'n': r.below(steps),
                                                'file': r.choice(['/sim/ro/st', '/sim/ro/st2'])}}


def learn(api, ps, a):
    st = api.gsstyles.MarkovStyle(order=a['order'], numSteps=a['steps'], loopDuration=a['loop'])
    st.generateStyle(ps)
    return st


def edit_set(api, p, a):
    if p.events:
        p[a['n'] % len(p.events)] = event(api, a['e'])


def event(api, e):
    return api.Event(startTime=e[0], duration=e[1], pitch=e[2], velocity=e[3], tag=lib.mktag(api, e[4]))


def edit_field(api, p, a):
    setattr(p, a['field'], native(a['value']) if not isinstance(a['value'], list) else tuple(a['value']))


def edit_event(api, p, a):
    if p.events:
        e = p.events[a['n'] % len(p.events)]
        setattr(e, a['field'], lib.mktag(api, a['value']) if a['field'] == 'tag' else a['value'])


def edit_vp(api, p, a):
    p.generateViewpoint(native(a['name']), lib.descriptor(api, a['desc']), a['slice'])


def edit_vpedit(api, p, a):
    for k in sorted(p.viewpoints):
        v = p.viewpoints[k]
        v.events = v.events[:1] + [api.Event(9, 1, 1, 1, 'vpedit')]
        for e in v.events:
            e.duration += 1
        break


def edit_remove(api, p, a):
    if p.events:
        p.removeEvent(p.events[a['n'] % len(p.events)])


EDIT = {
    'add': lambda api, p, a: p.addEvent(event(api, a['e'])),
    'align': lambda api, p, a: canon_none(p.alignOnGrid(a['step'])),
    'legato': lambda api, p, a: p.applyLegato(**opt(a, usePitchValues=(a['pitch'], True))),
    'prev': lambda api, p, a: p.fillWithPreviousEvent(),
    'fill': lambda api, p, a: p.fillWithSilences(**opt(a, maxSilenceTime=(a['max'], 0), perTag=(a['per'], False))),
    'quantize': lambda api, p, a: p.quantize(**opt(a, stepSize=(a['step'], 0.25), quantizeStartTime=(a['on'], True), quantizeDuration=(a['dur'], True))),
    'rmtags': lambda api, p, a: p.removeByTags([tag(api, a)]),
    'rm': edit_remove,
    'overlap': lambda api, p, a: p.removeOverlapped(**opt(a, usePitchValues=(a['pitch'], False))),
    'reorder': lambda api, p, a: p.reorderEvents(),
    'tolast': lambda api, p, a: p.durationToLastEvent(**opt(a, onlyIfBigger=(a['big'], True))),
    'tobar': lambda api, p, a: p.durationToBar(),
    'stretch': lambda api, p, a: p.timeStretch(a['ratio']),
    'transpose': lambda api, p, a: p.transpose(a['by']),
    'set': edit_set,
    'field': edit_field,
    'event': edit_event,
    'vp': edit_vp,
    'vpedit': edit_vpedit,
}


def canon_none(x):
    return None


def included(api, a):
    return [tag(api, a)] + (['silence'] if a['sil'] else [])


def apply(api, p, op):
    """What the operation gives, or the name of what it raises."""
    try:
        table = READ if op['k'] in READ else EDIT if op['k'] in EDIT else STYLE
        return ['ok', canon(table[op['k']](api, p, op['a']))]
    except Exception as e:
        if type(e).__name__ in ('Stuck', 'Hang'):
            raise
        return ['raises', type(e).__name__]


# ---- generating -----------------------------------------------------------------------------
def gtag(r, spec):
    tags = [e[4] for e in spec['events']]
    flat = []
    for t in tags:
        flat += [t] + (t[1:] if isinstance(t, list) else [])
    return r.choice(flat) if flat and r.chance(0.8) else r.choice(['Kick', 'silence', ['t', 'a']])


def gop(r, spec, which, exclude=()):
    k = r.choice([x for x in sorted(which) if x not in exclude])
    times = [e[0] for e in spec['events']] or [0]
    a = {}
    if k in ('active', 'starting', 'slice', 'events'):
        a['t'] = r.choice([r.choice(times), r.choice(times) + 0.25, 0, r.rint(-2, 20), 0.3])
        a['tol'] = r.choice([0, 0.5, 2])
        a['len'] = r.choice([0.5, 1, 4, 100, 0])
        a['trim'] = r.chance(0.5)
        a['tag'] = gtag(r, spec)
    elif k in ('identical', 'set', 'event', 'rm', 'unlike'):
        a['n'] = r.below(50)
        a['all'] = r.chance(0.5)
    elif k in ('withtags', 'nocopy', 'withlist', 'without', 'withoutlist', 'rmtags', 'density2', 'density3', 'ntags2', 'ntags3'):
        a['tag'] = gtag(r, spec)
        a['sil'] = r.chance(0.5)
        a['exact'] = r.chance(0.5)
    elif k == 'withpitch':
        a['pitch'] = r.choice([e[2] for e in spec['events']] + [60])
    elif k in ('split', 'splitvp'):
        a['len'] = r.choice([0.5, 1, 4, 4, 2.5])
        a['sup'] = r.chance(0.5)
    elif k in ('learn', 'learngen'):
        a['order'], a['steps'], a['loop'] = r.choice([1, 2]), r.choice([4, 8, 16]), r.choice([4, 8, 2])
        a['seed'] = r.below(1000)
    elif k in ('grid', 'cut', 'align'):
        a['step'] = r.choice([1, 0.5, 0.25, 1])
    elif k == 'chord':
        a['mm'], a['dup'] = r.chance(0.4), r.chance(0.3)
    if k in ('json', 'midi', 'pickle', 'w2p'):
        a['folder'] = r.choice(['/sim/ro', '/sim/ro/new', '/sim/ro/new/er'])
        a['ct'] = r.chance(0.5)
    if k in ('json', 'jsondict'):
        a['idx'] = r.chance(0.5)
    if k in ('filled', 'fill'):
        a['max'], a['per'] = r.choice([0, 1, 0.5]), r.chance(0.4)
    if k in ('add', 'set'):
        a['e'] = [r.rint(0, 40) * 0.25, r.choice([0.25, 1, 2, 5]), r.rint(20, 100), r.choice([1, 64, 126, 127, r.rint(1, 127)]), gtag(r, spec)]
    if k in ('legato', 'overlap'):
        a['pitch'] = r.chance(0.5)
    if k == 'quantize':
        a['step'], a['on'], a['dur'] = r.choice([0.25, 1, 0.5]), r.chance(0.7), r.chance(0.7)
    if k == 'tolast':
        a['big'] = r.chance(0.5)
    if k == 'stretch':
        a['ratio'] = r.choice([2, 0.5, 1.5, 3])
    if k == 'transpose':
        a['by'] = r.choice([1, -1, 12, 7, 0])
    if k == 'field':
        a['field'], a['value'] = r.choice([['name', 'other'], ['bpm', 99.5], ['duration', 77], ['timeSignature', [3, 8]], ['key', 'Am'],
                                           ['startTime', 3], ['originFilePath', '/else']])
    if k == 'event':
        a['field'] = r.choice(['startTime', 'duration', 'pitch', 'velocity', 'tag'])
        a['value'] = gtag(r, spec) if a['field'] == 'tag' else r.choice([1, 7, 33])
    if k == 'vp':
        a['name'] = r.choice(['v1', 'v2', 'chords'])
        a['desc'] = r.choice(['chord', 'density', 'tags'])
        a['slice'] = r.choice([4, 1, 'all', 'perEvent'])
    return {'k': k, 'a': a}


def gpat(r, maxev=8, vps=0.4):
    """A pattern every operation can work on: notes short enough to be cut in steps, no numbers as tags."""
    n = r.weighted([(1, 0), (1, 1), (6, r.rint(2, maxev)), (0.12, r.rint(20, 80))])
    few = [gt(r) for _ in range(r.rint(1, 4))]
    ev = []
    grid = r.choice([0.25, 0.5, 1, 0.125])
    for k in range(n):
        ev.append([r.rint(0, 30) * grid if r.chance(0.9) else r.float() * 8, r.choice([0.25, 0.5, 1, 2, 3, 0.3]),
                   r.choice([36, 38, 42, 60, 64, 67, 71, r.rint(0, 127)]), r.choice([1, 64, 126, 127, r.rint(1, 127), r.rint(1, 127)]), r.choice(few)])
    if r.chance(0.4):
        ev.sort(key=lambda e: e[0])
    s = {'name': r.choice(['p', 'q', 'loop 1', 'a.b']), 'duration': r.choice([4, 8, 2, 16, 0.5, 10.5]), 'bpm': r.choice([120, 90.5]),
         'ts': r.choice([[4, 4], [3, 4], [6, 8]]), 'key': r.choice([None, 'C', 'Am']), 'res': r.choice([960, 96]), 'events': ev,
         'start': r.choice([0, 0, 4]), 'path': r.choice([None, '/from/here.mid'])}
    if ev and r.chance(vps):
        s['vps'] = lib.gvps(r, s)
    return s


def gt(r):
    return r.choice(['Kick', 'Snare', 'Chh', 'silence', 'C4', 'low Congas', 'snare', ['t', 'Kick'], ['t', 'Kick', 'Snare'], ['t', 'a', 'b', 'c'],
                     ['c', 'C', 'maj'], 'Kick', 'Snare'])


assert not (set(READ) & set(EDIT) or set(READ) & set(STYLE) or set(EDIT) & set(STYLE))
