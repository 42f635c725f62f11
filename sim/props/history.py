# -*- coding: utf-8 -*-
"""C01, C02, C03: histories of saves, restarts and loads against a model of what each file holds."""
from __future__ import absolute_import, division, print_function

import json
import os

import lib
import ops
from env import World
from prng import mix
from simfs import PY3, SimCrash


def genfs(r):
    return {'dirseed': r.below(1000000), 'bufsize': r.choice([16, 64, 512, 4096, 8192, 8192, 65536]),
            'shortwrites': r.weighted([(3, 0), (1, r.rint(1, 40)), (1, r.rint(100, 9000))]),
            'shortreads': r.weighted([(3, 0), (1, r.rint(1, 40)), (1, r.rint(100, 9000))])}


def mkworld(s):
    f = s.get('fs', {})
    w = World(s.get('seed', 0), dirseed=f.get('dirseed', 0), bufsize=f.get('bufsize', 8192), shortreads=f.get('shortreads', 0))
    w.fs.shortwrites = f.get('shortwrites', 0)
    return w


def gen(r, tier, i, kinds, unicode_ok=True):
    s = {'seed': r.below(1 << 30), 'fs': genfs(r), 'ops': []}
    prev = []
    uni = unicode_ok and r.chance(0.25)
    for k in range(r.weighted([(5, 1), (3, 2), (2, 3), (1, 5)])):
        big = r.chance(0.12)
        job = ops.gsave(r, kinds, uni, big)
        if prev and r.chance(0.5):
            # replaces an earlier file
            old = r.choice(prev)
            if old['op'] == job['op'] and 'pattern' in job:
                job['folder'] = old['folder']
                job['pattern']['name'] = old['pattern']['name']
                for k2 in ('name', 'nameSuffix'):
                    if k2 in old:
                        job[k2] = old[k2]
                if 'opts' in job:
                    job['opts'].pop('nameSuffix', None)
                    if 'nameSuffix' in old['opts']:
                        job['opts']['nameSuffix'] = old['opts']['nameSuffix']
                job.pop('older', None)
        if job['op'] in ('json', 'pickle') and job['pattern'].get('vps') and r.chance(0.2):
            job['part'] = r.choice(job['pattern']['vps'])['name']
        prev.append(job)
        if r.chance(0.15):
            s['ops'].append({'do': 'crashed-save', 'job': ops.gsave(r, kinds, uni), 'at': r.float()})
        s['ops'].append({'do': 'save', 'job': job})
        if r.chance(0.3):
            s['ops'].append({'do': 'load', 'n': r.below(8)})
        if r.chance(0.35):
            s['ops'].append({'do': 'edit and save', 'n': r.below(8), 'edit': {'what': r.choice(['velocity', 'velocity', 'pitch', 'tag', 'duration']),
                                                                              'n': r.below(8)}})
            if r.chance(0.5):
                s['ops'].append({'do': 'load', 'n': r.below(8)})
        if r.chance(0.15):
            s['ops'].append({'do': 'copy file', 'n': r.below(8), 'm': r.below(8)})
        if r.chance(0.3):
            s['ops'].append({'do': 'restart'})
    return s


def run(s, o):
    with mkworld(s) as w:
        model = {}          # path -> (job, expected, path as returned)
        order = []
        saves = 0
        live = {}           # path -> what was saved there, if this process still has it

        def check(path, where):
            job, exp, given = model[path]
            try:
                got = ops.load(w.api, job, given)
            except Exception as e:
                o.bad('load raises', '%s: %s after the save of %s was acknowledged (%s): %s' %
                      (type(e).__name__, e, path, where, job['op']))
                return
            d = ops.compare(exp, got, job)
            if job['op'] == 'midi':
                if lib.text(got.name) != lib.text(os.path.basename(given)):
                    d.append('name %r instead of the file name' % got.name)
                d += ops.midi_file(ops.mapped(job), w.fs.get(path))
            o.note('load', path, len(d))
            o.steps += 1
            if d:
                o.bad('not what was saved', '%s (%s, %s): %s' % (path, job['op'], where, '; '.join(d)))

        for k, op in enumerate(s['ops']):
            if op['do'] == 'restart':
                w.boot()
                live.clear()
                o.fired({'crash after acknowledgement': 1})
            elif op['do'] == 'copy file':
                if not order:
                    continue
                # by somebody else: the content of one file takes the place of another
                a, b = order[op['n'] % len(order)], order[op['m'] % len(order)]
                if a != b and model[a][0]['op'] == model[b][0]['op'] != 'midi' and \
                        model[a][0].get('opts', {}).get('conserveTuple') == model[b][0].get('opts', {}).get('conserveTuple') and \
                        model[a][0]['op'] != 'dbpickle':
                    w.fs.put(b, w.fs.get(a))
                    model[b] = (model[a][0], model[a][1], model[b][2])
                    live.pop(b, None)
                    o.probe('file replaced by another process')
                    check(b, 'replaced by another process')
            elif op['do'] == 'load':
                if order:
                    check(order[op['n'] % len(order)], 'later load')
            elif op['do'] in ('save', 'edit and save'):
                if op['do'] == 'save':
                    q = ops.prepare(w, dict(op['job'], pattern=dict(op['job']['pattern'], events=[list(e) for e in op['job']['pattern']['events']]))
                                    if op['job']['op'] == 'midi' else op['job'])
                else:
                    q = live.get(order[op['n'] % len(order)]) if order else None
                    if q is None:
                        continue
                    ops.edit(q, op['edit'])
                    o.probe('edited and saved again')
                exp = ops.expected(q)
                w.fs.begin(k)
                ret = ops.call(q)
                w.fs.end()
                o.steps += w.fs.nops
                live[q.rel] = q
                bad = ops.returned_path(w, q, ret)
                if bad:
                    o.bad('wrong path', bad)
                    return
                if w.fs.get(q.rel) is None:
                    o.bad('no file', '%s was acknowledged, but %s does not exist' % (q.job['op'], q.rel))
                    return
                saves += 1
                # (what the job described may change when it is built: viewpoints sort events)
                model[q.rel] = (q.job if q.job['op'] != 'midi' else json.loads(json.dumps(q.job)), exp if q.job['op'] != 'midi' else
                                json.loads(json.dumps(exp)), ret or q.path)
                if q.rel in order:
                    order.remove(q.rel)
                    o.probe('file replaced')
                order.append(q.rel)
                o.probe('saved ' + q.job['op'])
                if q.job.get('older') and op['do'] == 'save':
                    o.probe('older file replaced')
                if w.fs.shortwrites:
                    o.fired({'short write': 1})
                # the process dies here: only what reached the disk is left
                disk = w.fs.get(q.rel)
                o.note('saved', q.rel, lib.digest([len(disk)]))
                o.sigs.append(mix('ack', q.job['op'], len(disk)))
                check(q.rel, 'same process')
            elif op['do'] == 'crashed-save':
                # what a crash leaves of this file is not this property's matter; of the others it is
                if w.fs.norm(ops.target(op['job'])) in model:
                    continue
                q = ops.prepare(w, op['job'])
                n = int(op['at'] * 12)
                w.fs.faults = {(k, n): {'kind': 'crash'}}
                w.fs.begin(k)
                try:
                    ops.call(q)
                except SimCrash:
                    o.fired({'crash': 1})
                except Exception:
                    if not w.fs.crashed:
                        raise
                w.fs.end()
                w.boot()
                live.clear()
        w.boot()
        o.fired({'crash after acknowledgement': 1})
        for p in list(order):
            check(p, 'after a restart')
        o.nontrivial = saves > 0
