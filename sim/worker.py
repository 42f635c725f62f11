# -*- coding: utf-8 -*-
"""
One worker process, CPython or Jython.

    worker.py runs PROP SEED TIER FIRST STEP COUNT SECONDS OUT
    worker.py some PROP SEED TIER I,I,... OUT         (digests only)
    worker.py exec FILE OUT                           (one replay file)
"""
from __future__ import absolute_import, division, print_function

import gc
import json
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

import core
import env
from simfs import PY3

RUNTIME = 'jython' if env.JYTHON else 'cpython'


class Hang(BaseException):
    pass


def alarm(seconds):
    if env.JYTHON:
        return
    import signal
    signal.alarm(seconds)


def arm():
    if env.JYTHON:
        return
    import signal

    def h(*a):
        raise Hang()
    signal.signal(signal.SIGALRM, h)


real_open = open


def put(out, data):
    env.PATCH.fs = None
    tmp = out + '.tmp'
    f = real_open(tmp, 'w')
    f.write(json.dumps(data))
    f.close()
    os.rename(tmp, out)


def runs(pid, seed, tier, first, step, count, seconds, out):
    p = core.prop(pid)
    env.install()
    t0 = time.time()
    res = {'runtime': RUNTIME, 'hashseed': os.environ.get('PYTHONHASHSEED'), 'runs': 0, 'nontrivial': 0, 'steps': 0,
           'faults': {}, 'probes': {}, 'sigs': [], 'digests': {}, 'samples': [], 'violations': [], 'scen': [],
           'stopped': False, 'wall': 0}
    sigs = set()
    scen = set()
    seen = set()
    i = first
    for k in range(count):
        if time.time() - t0 > seconds:
            res['stopped'] = True
            break
        alarm(120)
        s = None
        try:
            s = core.scenario(p, pid, seed, i, tier)
            o = core.execute(p, s)
        except Hang:
            res['violations'].append({'cls': 'hang', 'words': 'run %d did not end' % i, 'scenario': s, 'i': i})
            put(out, res)
            os._exit(0)
        alarm(0)
        res['runs'] += 1
        res['steps'] += o.steps
        for k2, v in o.faults.items():
            res['faults'][k2] = res['faults'].get(k2, 0) + v
        for k2, v in o.probes.items():
            res['probes'][k2] = res['probes'].get(k2, 0) + v
        sigs.update(o.sigs)
        sd = core.digest(s)
        if o.nontrivial and sd not in scen:
            res['nontrivial'] += 1
            scen.add(sd)
        if k < 40 or k % 16 == 0 or hasattr(p, 'RERUN'):
            res['digests'][str(i)] = core.digest([sd, o.data()['digest']])
        if len(res['samples']) < 2 and o.nontrivial and len(json.dumps(s)) < 3000:
            res['samples'].append({'run': i, 'scenario': s})
        for cls, words in o.violations:
            if cls not in seen and len(seen) < 3:
                seen.add(cls)
                alarm(600)
                try:
                    m, tries = core.minimise(p, s, cls, 30)
                    o2 = core.execute(p, m)
                    w = [v[1] for v in o2.violations if v[0] == cls] or [words]
                except Hang:
                    m, tries, w = s, -1, [words]
                alarm(0)
                res['violations'].append({'cls': cls, 'words': w[0], 'scenario': m, 'original': s, 'i': i, 'tries': tries})
        if len(res['violations']) >= 3:
            break
        i += step
        if k % 20 == 0:
            gc.collect()
    res['sigs'] = sorted(sigs)
    res['scen'] = sorted(scen)
    res['wall'] = time.time() - t0
    put(out, res)


def some(pid, seed, tier, which, out):
    p = core.prop(pid)
    env.install()
    d = {}
    for i in which:
        s = core.scenario(p, pid, seed, i, tier)
        o = core.execute(p, s)
        d[str(i)] = core.digest([core.digest(s), o.data()['digest']])
    put(out, d)


def one(path, out):
    f = real_open(path)
    r = json.loads(f.read())
    f.close()
    p = core.prop(r['property'])
    env.install()
    o = core.execute(p, r['scenario'])
    put(out, o.data())


def main(a):
    arm()
    if a[0] == 'runs':
        runs(a[1], int(a[2]), a[3], int(a[4]), int(a[5]), int(a[6]), float(a[7]), a[8])
    elif a[0] == 'some':
        some(a[1], int(a[2]), a[3], [int(x) for x in a[4].split(',')], a[5])
    elif a[0] == 'exec':
        alarm(300)
        try:
            one(a[1], a[2])
        except Hang:
            put(a[2], {'violations': [['hang', 'the run did not end']], 'digest': 'hang'})
            os._exit(0)


if __name__ == '__main__':
    main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(0)
