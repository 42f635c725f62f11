#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/bugs.py and checks each bug in a scratch worktree.
usage: plant.py [-n] [-t] [-x] [ID...]   (-x: lines that are not original may change, too: nothing in /verif/seeded; -n: only the demo, not our check; -t: also the stable tests' modules)"""
import json, os, shutil, subprocess, sys, concurrent.futures as cf
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = {}


def bug(id, prop, file, edits, demo, needs, breaks, py='/opt/venv/bin/python'):
    BUGS[id] = dict(prop=prop, file=file, edits=edits, demo=demo, needs=needs, breaks=breaks, py=py)


exec(compile(open(os.path.join(here, 'tools', 'bugs.py')).read(), 'bugs.py', 'exec'))


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)


ROOT = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.split()[0]
BASE = sh('git -C /repo log --reverse --format=%h').stdout.split()


def one(id):
    b = BUGS[id]
    wt = '/tmp/plant_' + id
    sh('git -C /repo worktree remove --force %s; rm -rf %s; git -C /repo worktree add --detach %s HEAD' % (wt, wt, wt))
    try:
        for f, old, new in [(b['file'],) + e if len(e) == 2 else e for e in b['edits']]:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != 1:
                return id, 'edit of %s matches %d times: %r' % (f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        d = os.path.join('/tmp/planted' if ANY else os.path.join(here, 'seeded'), id)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        diff = sh('git -C %s diff' % wt).stdout
        open(d + '/patch.diff', 'w').write(diff)
        # every removed line must be one of the original repository
        base = {}
        for l in diff.splitlines():
            if l.startswith('--- a/'):
                orig = sh('git -C /repo show %s:%s' % (BASE[0], l[6:])).stdout.splitlines()
            elif l.startswith('-') and not l.startswith('---') and l[1:] not in orig and not ANY:
                shutil.rmtree(d)
                return id, 'not a line of the original: ' + l
        open(d + '/demo.py', 'w').write(b['demo'].strip() + '\n')
        open(d + '/demo.sh', 'w').write('#!/bin/sh\n# run in the repository: 0 if it behaves, otherwise not\n'
                                        'd=$(mktemp -d) || exit 2\ntrap \'rm -rf "$d"\' EXIT\n'
                                        'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" %s "$(cd "$(dirname "$0")" && pwd)/demo.py" "$d"\n'
                                        % (b['py'] + (' -B -W ignore' if 'python' in b['py'] and 'jython' not in b['py'] else ' -B')))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r0 = sh('sh %s/demo.sh' % d, cwd='/repo', timeout=300)
        r1 = sh('sh %s/demo.sh' % d, cwd=wt, timeout=300)
        res = []
        if r0.returncode:
            res.append('DEMO FAILS ON HEAD: ' + r0.stdout[-600:])
        if not r1.returncode:
            res.append('DEMO PASSES WITH THE BUG ' + r1.stdout[-300:])
        if TESTS:
            r = tests(wt)
            res.append('tests ' + r)
        if not NOCHECK:
            e = dict(os.environ, GSAPI_REPO=wt, VERIF_SEED='1', VERIF_TIER='quick', SIM_OUT=wt + '.ev')
            r = sh('python3 sim/run.py ' + b['prop'], cwd=here, env=e)
            v = [l for l in r.stdout.splitlines() if 'VIOLATION' in l]
            res.append('check %s exit %d %s' % (b['prop'], r.returncode, 'CAUGHT' if r.returncode == 1 and v else 'MISSED ' + r.stdout[-300:]))
        return id, '; '.join(res) or 'ok'
    finally:
        sh('git -C /repo worktree remove --force %s' % wt)


def tests(wt):
    rt = wt + '.run_tests.py'
    open(rt, 'w').write(open('/opt/vp/run_tests.py').read().replace('/repo', wt))
    env = dict(os.environ, PYTHONHASHSEED='0')
    for m in ('test_descriptor', 'test_io', 'test_pattern'):
        sh('timeout 200 jython -B %s %s.lines tests.%s' % (rt, wt, m), cwd=wt, env=env)
    got = open(wt + '.lines').read()
    stable = [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable']]
    bad = [x for x in stable if 'PASS ' + x not in got]
    os.remove(rt)
    os.remove(wt + '.lines')
    return 'FAIL ' + ' '.join(bad) if bad else 'pass'


NOCHECK, TESTS, ANY = '-n' in sys.argv, '-t' in sys.argv, '-x' in sys.argv
ids = [a for a in sys.argv[1:] if a[0] != '-'] or sorted(BUGS)
with cf.ThreadPoolExecutor(8 if NOCHECK else 1) as ex:
    for id, r in ex.map(one, ids):
        print(id, BUGS[id]['prop'], r, flush=True)
sh('git -C /repo worktree prune')
