# -*- coding: utf-8 -*-
from __future__ import absolute_import, division, print_function

import lib
import ops
from env import World
from prng import mix
from props import faulty
from props.history import genfs, mkworld
from simfs import PY3, SimCrash

RUNS = {'quick': 6000, 'thorough': 120000}
JRUNS = {'quick': 80, 'thorough': 2000}
RULE = ('a run saves once or twice to the same file, the last time with the process dying at an I/O operation or inside a write '
        '(or the finished file cut at a byte), then a new process loads, saves again and loads again; non-trivial: the crash '
        'happened or the file was cut; distinct: scenario differs')
MEASURE = 'kind of file x where it was cut (in 1/64) x how the load ended'
REAL = ['gsapi (all modules, from the working tree)', 'json', 'pickle', 'io buffering and text layers']
STUB = ['disk: in-memory file system (sim/simfs.py) that keeps what was written before the crash', 'randomness: seeded per run']
ASSUMPTIONS = ['a crash leaves a prefix of what was written (the death of a process, no power loss that reorders or zeroes blocks)']


def gen(r, tier, i):
    s = {'seed': r.below(1 << 30), 'fs': genfs(r)}
    s['fs']['bufsize'] = r.choice([1, 7, 16, 64, 512, 8192])
    s['fs']['shortwrites'] = s['fs']['shortreads'] = 0
    s['job'] = ops.gsave(r, big=r.chance(0.1))
    s['job'].pop('older', None)
    if r.chance(0.4):
        # an older version of the same file
        for _ in range(50):
            j = ops.gsave(r, [s['job']['op']])
            if j['op'] == s['job']['op'] and j.get('opts', {}).get('conserveTuple') == s['job'].get('opts', {}).get('conserveTuple'):
                break
        else:
            j = s['job']
        j = dict(s['job'], **dict((k, j[k]) for k in ('pattern', 'patterns', 'style') if k in j and k in s['job']))
        if 'pattern' in j:
            j['pattern'] = dict(j['pattern'], name=s['job']['pattern']['name'])
        j.pop('older', None)
        s['before'] = j
    s['how'] = r.choice(['crash', 'torn', 'cut', 'cut'])
    s['at'] = r.weighted([(1, 0.0), (1, 0.9999), (4, r.float()), (2, 1 - r.float() * 0.05)])
    s['arg'] = r.below(100)
    return s


def run(s, o):
    job, trace, dryres, ncalls = faulty.dry(dict(s))
    with mkworld(s) as w:
        allowed = []
        if 'before' in s:
            b = ops.prepare(w, s['before'])
            allowed.append(('the old one', ops.expected(b), s['before']))
            w.fs.begin('before')
            ops.call(b)
            w.fs.end()
        q = ops.prepare(w, s['job'])
        exp = ops.expected(q)
        allowed.append(('the new one', exp, s['job']))
        size = None
        if s['how'] == 'cut':
            w.fs.begin(0)
            ops.call(q)
            w.fs.end()
            data = w.fs.get(q.rel)
            size = min(len(data) - 1, int(s['at'] * len(data)))
            w.fs.put(q.rel, data[:size])
            o.fired({'file cut': 1})
            allowed = allowed[-1:]
            crashed = True
            part = int(64.0 * size / max(1, len(data)))
        else:
            on = [n for n, k, p in trace if s['how'] == 'crash' or k == 'write']
            n = on[min(len(on) - 1, int(s['at'] * len(on)))] if on else 0
            w.fs.faults = {(0, n): {'kind': 'crash' if s['how'] == 'crash' else 'torncrash', 'arg': s['arg']}}
            w.fs.begin(0)
            crashed = False
            try:
                ops.call(q)
            except SimCrash:
                crashed = True
            except Exception:
                if not w.fs.crashed:
                    raise
                crashed = True
            w.fs.end()
            crashed = crashed or w.fs.crashed
            o.fired({s['how']: 1} if crashed else {})
            part = n
        o.nontrivial = crashed
        o.steps += w.fs.nops
        api = w.boot()
        there = w.fs.get(q.rel) is not None
        got = None
        try:
            got = ops.load(api, s['job'], q.rel)
            how = 'loaded'
        except Exception as e:
            how = type(e).__name__
        o.sigs.append(mix(job['op'], s['how'], part, how))
        o.note(how, part, crashed)
        if how == 'loaded':
            o.probe('loaded after the crash')
            ds = []
            for what, x, j in allowed:
                d = ops.compare(x, got, j)
                if not d:
                    break
                ds.append('not %s: %s' % (what, '; '.join(d)))
            else:
                o.bad('partial file loaded', '%s, %s: the load returned %s' % (
                    job['op'], 'cut to %d bytes' % size if size is not None else 'after a crash at operation %d' % part,
                    ' and '.join(ds)))
                return
        else:
            o.probe('load raised')
            if not there:
                o.probe('no file yet')
        # the new process can do it again
        q = ops.prepare(w, s['job'])
        exp = ops.expected(q)
        w.fs.begin('again')
        ops.call(q)
        w.fs.end()
        api = w.boot()
        d = ops.compare(exp, ops.load(api, s['job'], q.rel), s['job'])
        if d:
            o.bad('not repaired', '%s: saving again after the crash does not give the new file: %s' % (job['op'], '; '.join(d)))
