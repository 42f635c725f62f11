# -*- coding: utf-8 -*-
"""One call that uses the disk, under faults: what C04, C06 and C07 look at."""
from __future__ import absolute_import, division, print_function

import lib
import ops
from env import World
from props.history import genfs, mkworld
from prng import mix
from sched import Interrupter, Stuck
from simfs import PY3, SimCrash

HARD = {'open': ['emfile', 'eacces', 'enoent', 'eio', 'interrupt', 'nomem'],
        'create': ['emfile', 'eacces', 'enospc', 'erofs', 'eio', 'interrupt', 'nomem'],
        'read': ['eio', 'eio', 'interrupt', 'nomem'],
        'write': ['enospc', 'eio', 'torn', 'torn', 'interrupt', 'nomem'],
        'close': ['eio', 'enospc', 'interrupt'],
        'stat': ['eacces', 'eio'],
        'mkdir': ['eacces', 'enospc', 'erofs', 'interrupt']}
BENIGN = {'read': ['short'], 'write': ['short'], 'mkdir': ['race']}


def gfault(r, load, benign=0.15):
    if r.chance(benign):
        on = r.choice(['read'] if load else ['write', 'mkdir'])
        return {'on': on, 'kind': r.choice(BENIGN[on]), 'at': r.float(), 'arg': r.choice([1, 2, 3, 7, 50])}
    on = r.choice(['open', 'read', 'read', 'close'] if load else ['open', 'create', 'write', 'write', 'write', 'close', 'close', 'stat', 'mkdir'])
    f = {'on': on, 'kind': r.choice(HARD[on]), 'at': r.choice([0.0, 0.999, r.float(), r.float()])}
    if f['kind'] == 'torn':
        f['arg'] = r.below(100)
    return f


def gen(r, tier, i, cancel=0.0):
    s = {'seed': r.below(1 << 30), 'fs': genfs(r), 'attempts': []}
    s['fs']['shortwrites'] = s['fs']['shortreads'] = 0
    if r.chance(0.4):
        s['job'] = ops.gload(r)
    else:
        s['job'] = ops.gsave(r, big=r.chance(0.1))
    load = ops.is_load(s['job'])
    for k in range(r.weighted([(5, 1), (2, 2), (1, 3)])):
        if r.chance(cancel):
            s['attempts'].append({'cancel': r.float()})
        else:
            s['attempts'].append({'faults': [gfault(r, load) for _ in range(r.weighted([(6, 1), (2, 2)]))]})
    if r.chance(0.2):
        s['extra'] = [{'name': '/sim/out/neighbour.json', 'size': 10}, {'name': '/sim/home/other', 'size': 3}]
    return s


def prep(w, job):
    return ops.prepare_load(w, job) if ops.is_load(job) else ops.prepare(w, job)


def call(q):
    return ops.call_load(q) if ops.is_load(q.job) else ops.call(q)


def dry(s):
    """The same call without faults: its operations and its result."""
    with mkworld(s) as w:
        q = prep(w, s['job'])
        before = w.fs.snapshot()
        dirs = set(w.fs.dirs)
        it = Interrupter(calls_only=True)
        w.fs.begin('dry')
        res = it(call, q)
        w.fs.end()
        trace = [(n, k, p) for c, n, k, p, size in w.fs.ops if c == 'dry']
        return q.job, trace, res, it.n


def resolve(faults, trace):
    """Faults by place in the trace of the call."""
    out = {}
    for f in faults:
        l = [n for n, k, p in trace if k == f['on'] or (f['on'] == 'open' and k == 'create')] or [n for n, k, p in trace]
        n = l[min(len(l) - 1, int(f['at'] * len(l)))]
        k = [k for m, k, p in trace if m == n][0]
        if k != f['on'] and not (f['on'] == 'open' and k == 'create') and \
                f['kind'] not in HARD.get(k, []) + BENIGN.get(k, []):
            continue
        out[n] = f
    return out


class Attempt(object):
    pass


def attempt(w, q, tag, a, trace, ncalls):
    """One call under the faults of this attempt."""
    r = Attempt()
    fs = w.fs
    r.hard = False
    fired0 = dict(fs.fired)
    fs.faults = {}
    r.exc = None
    r.ret = None
    r.before = fs.snapshot()
    r.dirs = set(fs.dirs)
    nout = len(fs.outside)
    fs.begin(tag)
    try:
        if 'cancel' in a:
            at = 1 + int(a['cancel'] * max(ncalls, 1))
            it = Interrupter(at=at, calls_only=True)
            r.ret = it(call, q)
        else:
            for n, f in resolve(a['faults'], trace).items():
                fs.faults[(tag, n)] = f
            r.ret = call(q)
    except Stuck:
        raise
    except (Exception, KeyboardInterrupt) as e:
        r.exc = e
    fs.end()
    r.fired = dict((k, v - fired0.get(k, 0)) for k, v in fs.fired.items() if v > fired0.get(k, 0))
    if 'cancel' in a and isinstance(r.exc, KeyboardInterrupt):
        r.fired['cancelled'] = 1
    r.hard = any(k not in ('short', 'race') for k in r.fired)
    r.leaks = fs.leaked(tag)
    r.after = fs.snapshot()
    r.dirs_after = set(fs.dirs)
    r.outside = fs.outside[nout:]
    r.nops = fs.ncall
    fs.faults = {}
    return r


def complete(w, q, exp, dryres, r, o, cls):
    """The attempt returned: is what it returned or left all there?"""
    if ops.is_load(q.job):
        d = lib.differ(dryres, r.ret)
        if d:
            o.bad(cls, '%s returned normally after %s, but: %s' % (name(q.job), words(r), '; '.join(d)))
            return False
        return True
    bad = ops.returned_path(w, q, r.ret)
    if bad is None and w.fs.get(q.rel) is None:
        bad = 'no file'
    if bad is None:
        api = w.api
        w.fs.begin('verify')
        try:
            got = ops.load(api, q.job, q.rel)
            d = ops.compare(exp, got, q.job)
            bad = '; '.join(d) if d else None
        except Exception as e:
            bad = 'loading it raises %s: %s' % (type(e).__name__, e)
        w.fs.end()
    if bad:
        o.bad(cls, '%s returned normally after %s, but: %s' % (name(q.job), words(r), bad))
        return False
    return True


def name(job):
    return 'loading ' + job['of']['op'] if job['op'] == 'load' else job['op']


def words(r):
    return ', '.join(sorted(r.fired)) or 'no fault'


def cover(o, job, r, trace):
    o.fired(r.fired)
    for k in r.fired:
        o.sigs.append(mix(name(job), k, r.nops, type(r.exc).__name__))
    o.steps += r.nops
