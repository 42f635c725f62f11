#!/usr/bin/env python3
"""Which lines of gsapi the simulated runs reach: coverage.py [runs per property] [properties...] (CPython only)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sim'))
sys.dont_write_bytecode = True
import core, env, dis

hit = {}
M = sys.monitoring
M.use_tool_id(3, 'cov')


def line(code, n):
    f = code.co_filename
    if f.startswith(env.PKG):
        hit.setdefault(f, set()).add(n)
    return M.DISABLE


M.register_callback(3, M.events.LINE, line)
M.set_events(3, M.events.LINE)


def lines(code, out):
    for _, _, n in code.co_lines():
        if n and n != code.co_firstlineno:
            out.add(n)
    for c in code.co_consts:
        if hasattr(c, 'co_lines'):
            lines(c, out)


n = int(sys.argv[1]) if len(sys.argv) > 1 else 100
pids = sys.argv[2:] or ['C%02d' % k for k in range(1, 30) if os.path.exists(os.path.join(os.path.dirname(env.__file__), 'props', 'c%02d.py' % k))]
for pid in pids:
    p = core.prop(pid)
    for i in range(n):
        core.execute(p, core.scenario(p, pid, 1, i, 'quick'))
    sys.stderr.write(pid + '\n')
for name, (code, path, pkg) in sorted(env.CODE.table.items()):
    if not hasattr(code, 'co_lines'):
        continue
    all_ = set()
    lines(code, all_)
    miss = sorted(all_ - hit.get(path, set()))
    out = []
    for x in miss:
        if out and x - out[-1][1] <= 2:
            out[-1][1] = x
        else:
            out.append([x, x])
    print('%-40s %4d of %4d lines missed: %s' % (name, len(miss), len(all_), ', '.join('%d-%d' % tuple(x) if x[0] != x[1] else str(x[0]) for x in out)))
