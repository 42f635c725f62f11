#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""
One check:      run.py C01            (VERIF_SEED, VERIF_TIER from the environment)
One replay:     run.py --replay FILE  (exit 1 and the VIOLATION line if it still fails)

Ends with 0: the property held on everything explored; 1: VIOLATION; 2: the check itself failed.
"""
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

import core

PY = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable
JYTHON = shutil.which('jython') or '/usr/bin/jython'
NPROC = 8
FINDINGS = os.path.join(VERIF, 'known-findings.json')


def spawn(runtime, hashseed, args, log):
    env = dict(os.environ)
    env['PYTHONHASHSEED'] = str(hashseed)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env.pop('JAVA_TOOL_OPTIONS', None)
    cmd = [PY, '-B', os.path.join(HERE, 'worker.py')]
    if runtime == 'jython':
        env['JYTHON_OPTS'] = ''
        env['JAVA_MEM'] = '-Xmx3g'
        cmd = [JYTHON, '-Dpython.cachedir.skip=true',
               '-B', os.path.join(HERE, 'worker.py')]
    return subprocess.Popen(cmd + [str(a) for a in args], stdout=log, stderr=subprocess.STDOUT, env=env,
                            start_new_session=True)


def wait(procs, deadline):
    late = []
    for name, p in procs:
        try:
            p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            late.append(name)
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
    return late


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def known():
    d = load(FINDINGS) or {}
    return d.get('findings', [])


def matches(k, pid, v):
    return k['property'] == pid and k['class'] == v['cls'] and k.get('contains', '') in v['words']


def replay_once(path, tmp, n=0):
    r = load(path)
    out = os.path.join(tmp, 'replay%d.json' % n)
    with open(os.path.join(tmp, 'replay%d.log' % n), 'w') as log:
        p = spawn(r['runtime'], r['hashseed'], ['exec', path, out], log)
        wait([('replay', p)], time.time() + 400)
    return load(out), os.path.join(tmp, 'replay%d.log' % n)


def replay(path):
    tmp = tempfile.mkdtemp(prefix='simreplay')
    try:
        r = load(path)
        if 'other' in r:        # two processes that must agree
            ds = []
            for n, (rt, hs) in enumerate([(r['runtime'], r['hashseed'])] + r['other']):
                q = dict(r, runtime=rt, hashseed=hs)
                f = os.path.join(tmp, 'r%d' % n)
                with open(f, 'w') as g:
                    json.dump(q, g)
                o, log = replay_once(f, tmp, n)
                if o is None:
                    print(open(log).read()[-3000:])
                    return 2
                ds.append(o['digest'])
            if len(set(ds)) > 1:
                print('the same scenario ends differently in two processes: %s' % ds)
                print('VIOLATION property=%s replay=%s' % (r['property'], path))
                return 1
            print('not reproduced')
            return 0
        o, log = replay_once(path, tmp)
        if o is None:
            print(open(log).read()[-3000:])
            return 2
        for cls, words in o['violations']:
            print('%s: %s' % (cls, words))
        if any(v[0] == r['class'] for v in o['violations']):
            print('VIOLATION property=%s replay=%s' % (r['property'], path))
            return 1
        print('not reproduced (%d other violations)' % len(o['violations']))
        return 1 if o['violations'] else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def check(pid):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    tier = 'thorough' if tier == 'thorough' else 'quick'
    print('property %s tier %s VERIF_SEED=%d' % (pid, tier, seed))
    p = core.prop(pid)
    total = p.RUNS[tier]
    jtotal = p.JRUNS[tier]
    secs = 240 if tier == 'quick' else 3000
    if os.environ.get('SIM_RUNS'):
        total = int(os.environ['SIM_RUNS'])
        jtotal = min(jtotal, total)
    tmp = tempfile.mkdtemp(prefix='simcheck')
    try:
        return _check(pid, p, seed, tier, total, jtotal, secs, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _check(pid, p, seed, tier, total, jtotal, secs, tmp, t0):
    procs, outs, logs = [], [], []
    nj = 1 if jtotal and os.path.exists(JYTHON) else 0
    if tier == 'thorough' and nj:
        nj = 2
    nc = max(1, NPROC - nj)

    def start(name, rt, hs, args):
        out = os.path.join(tmp, name + '.json')
        log = open(os.path.join(tmp, name + '.log'), 'w')
        procs.append((name, spawn(rt, hs, args + [out], log)))
        log.close()
        outs.append((name, rt, hs, out))

    for k in range(nc):
        n = (total - k + nc - 1) // nc
        if n > 0:
            start('c%d' % k, 'cpython', (seed * 31 + k * 7 + 1) % 4294967295, ['runs', pid, seed, tier, k, nc, n, secs])
    for k in range(nj):
        n = (jtotal - k + nj - 1) // nj
        # other scenarios than CPython's
        start('j%d' % k, 'jython', 0, ['runs', pid, seed, tier, 1000000 + k, nj, n, secs * 0.6])
    late = wait(procs, t0 + secs + 240)
    results = []
    broken = []
    for name, rt, hs, out in outs:
        r = load(out)
        if r is None:
            txt = open(os.path.join(tmp, name + '.log')).read()[-3000:]
            broken.append('%s: %s' % (name, 'timeout' if name in late else txt))
        else:
            r['name'] = name
            results.append(r)
    # a sample once more, in another process with another hash seed: the same log?
    mism = []
    digests = {}
    who = {}
    for r in results:
        if r['runtime'] == 'cpython':
            for i, d in r['digests'].items():
                digests[int(i)] = d
                who[int(i)] = r['hashseed']
    nsame = 0
    if digests and not broken:
        idx = sorted(digests)
        want = getattr(p, 'RERUN', {'quick': 48, 'thorough': 400})[tier]
        idx = [i for n, i in enumerate(idx) if n % max(1, len(idx) // want) == 0][:want]
        procs2, outs2 = [], []
        nk = 8 if want > 500 else 2
        for k in range(nk):
            out = os.path.join(tmp, 'again%d.json' % k)
            log = open(os.path.join(tmp, 'again%d.log' % k), 'w')
            part = idx[k::nk]
            if part:
                procs2.append(('again', spawn('cpython', 4242 + k, ['some', pid, seed, tier, ','.join(map(str, part)), out], log)))
                outs2.append((out, 4242 + k))
            log.close()
        wait(procs2, time.time() + 200)
        for out, hs in outs2:
            d = load(out)
            if d is None:
                # a violating run may stop it; anything else shows in the runs themselves
                continue
            for i, x in d.items():
                if digests.get(int(i)) == x:
                    nsame += 1
                else:
                    mism.append((int(i), hs))
    viol = []
    for r in results:
        for v in r['violations']:
            viol.append(dict(v, runtime=r['runtime'], hashseed=r['hashseed']))
    if mism and getattr(p, 'DETERMINISM_IS_THE_PROPERTY', False):
        i, hs = mism[0]
        viol.append({'cls': 'differs between processes', 'scenario': core.scenario_data(pid, seed, i, tier), 'i': i,
                     'words': 'run %d ends differently in a process with another hash seed' % i,
                     'runtime': 'cpython', 'hashseed': who[i], 'other': [['cpython', hs]]})
    findings = known()
    report, kept = [], []
    for v in viol:
        k = [f for f in findings if matches(f, pid, v)]
        if k:
            kept.append((k[0], v))
        else:
            report.append(v)
    for k in findings:
        if k['property'] == pid:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))

    # evidence
    nruns = sum(r['runs'] for r in results)
    faults, probes, sigs = {}, {}, set()
    scen = set()
    for r in results:
        for k, v in r['faults'].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in r['probes'].items():
            probes[k] = probes.get(k, 0) + v
        sigs.update(r['sigs'])
        scen.update(r['scen'])
    wall = time.time() - t0
    cov = {
        'evaluations': nruns,
        'distinct_nontrivial': len(scen),
        'rule': p.RULE,
        'samples': [x for r in results for x in r['samples']][:4] or ['no sample short enough'],
        'seeds': nruns,
        'runs_per_hour': int(nruns / max(wall, 0.001) * 3600),
        'runs_by_runtime': {rt: sum(r['runs'] for r in results if r['runtime'] == rt) for rt in ('cpython', 'jython')},
        'simulated_time': 'none: gsapi reads no clock and sets no timer; progress is counted in steps',
        'simulated_steps': sum(r['steps'] for r in results),
        'faults_injected': faults,
        'probes': probes,
        'distinct_interleavings_or_fault_points': len(sigs),
        'measure': p.MEASURE,
        'real_components': p.REAL,
        'stub_components': p.STUB,
        'determinism_rerun': {'compared': nsame + len(mism), 'same': nsame, 'different': [m[0] for m in mism][:20]},
        'stopped_early': [r['name'] for r in results if r['stopped']],
        'hash_seeds': sorted(set(str(r['hashseed']) for r in results)),
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
          'assumptions': p.ASSUMPTIONS, 'wall_s': round(wall, 1), 'violations': len(report)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%d runs (%d distinct, non-trivial), %d steps, faults %s, probes %s, %d interleavings/fault points, %.1f s' % (
        nruns, len(scen), cov['simulated_steps'], json.dumps(faults, sort_keys=True), json.dumps(probes, sort_keys=True),
        len(sigs), wall))
    if mism:
        print('re-run in another process differs for runs %s' % [m[0] for m in mism][:20])

    # the first violation that its replay file reproduces
    if report:
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        best = None
        for n, v in enumerate(report[:6]):
            sc = v['scenario']
            if v['cls'] == 'hang':
                sc = dict(sc or {}, budget=4000000)
            rec = {'property': pid, 'class': v['cls'], 'words': v['words'], 'runtime': v['runtime'], 'hashseed': v['hashseed'],
                   'seed': seed, 'run': v['i'], 'scenario': sc}
            if 'other' in v:
                rec['other'] = v['other']
            path = os.path.join(VERIF, 'replays', '%s-seed%d-run%d%s.json' % (pid, seed, v['i'], '-%d' % n if n else ''))
            with open(path, 'w') as f:
                json.dump(rec, f, indent=1, sort_keys=True)
            rc = subprocess.call([sys.executable, os.path.abspath(__file__), '--replay', path], stdout=subprocess.DEVNULL)
            if rc == 1:
                best = (v, path)
                break
            if 'original' in v:     # the run as it was found
                rec['scenario'] = v['original']
                with open(path, 'w') as f:
                    json.dump(rec, f, indent=1, sort_keys=True)
                rc = subprocess.call([sys.executable, os.path.abspath(__file__), '--replay', path], stdout=subprocess.DEVNULL)
                if rc == 1:
                    best = (v, path)
                    break
        if best is None:
            print('violations were seen but no replay file reproduces one:')
            for v in report:
                print('  %s: %s' % (v['cls'], v['words']))
            return 2
        v, path = best
        print('%s: %s' % (v['cls'], v['words']))
        print('run %d of seed %d, %s, PYTHONHASHSEED=%s' % (v['i'], seed, v['runtime'], v['hashseed']))
        print('replay: python3 %s --replay %s' % (os.path.relpath(os.path.abspath(__file__), VERIF), path))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if broken:
        print('the check failed: workers without a result')
        for b in broken:
            print(b)
        return 2
    if nruns == 0 or not scen:
        print('the check failed: nothing was explored')
        return 2
    return 0


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(replay(os.path.abspath(sys.argv[2])))
    try:
        rc = check(sys.argv[1])
    except Exception:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
