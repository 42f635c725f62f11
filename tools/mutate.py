#!/usr/bin/env python3
"""Mutation analysis of the checks: mutate.py OUT [-j N] [-s SECONDS per property] [-k PART/OF] [-a] [module...]   (-a: all properties, not only those of the module)
Each mutant of gsapi (operators, constants, conditions, left-out statements) is run in a process of its own against the simulated runs
of the properties, those that belong to its module first, until one reports a violation. OUT gets a line per mutant:
V (violation) / E (only errors of the harness) / S (survived) / T (did not end)."""
import ast, copy, json, os, sys, time, signal
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sim'))
sys.dont_write_bytecode = True
import core, env

ORDER = {
    'gspattern': 'C20 C19 C13 C12 C01 C17 C14 C09 C11 C22', 'gsio': 'C08 C02 C01 C03 C04 C05 C06 C07 C09 C21 C12', 'midiio': 'C23 C02 C08 C21 C05 C06',
    'gsstyles': 'C14 C16 C15 C12 C03 C04 C05 C06 C21 C13', 'gsdescriptors': 'C19 C12 C11 C17 C22', 'gstransformers': 'C17 C20 C11', 'bassmine': 'C18',
    'gsdataset': 'C09 C10 C06', 'gsutil': 'C09 C18 C08 C20', 'gsdefs': 'C08 C02 C19'}
SKIPF = {'__plotMatrix', 'plotMatrixAtStep', 'plotGlobalMatrix', 'parallelCCompile', '_single_compile', '__repr__', '__baserepr__', 'pitch_model'}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn,
       ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.Mult, ast.Pow: ast.Mult,
       ast.LShift: ast.RShift, ast.RShift: ast.LShift, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
FUN = {'max': 'min', 'min': 'max', 'ceil': 'floor', 'floor': 'ceil', 'any': 'all', 'all': 'any'}
DROP = {'sorted', 'reversed', 'list', 'tuple', 'int', 'float', 'str', 'abs', 'round', 'deepcopy', 'bytes', 'bytearray', 'basename', 'abspath', 'set'}
LOGS = {'info', 'warning', 'error', 'debug', 'print'}


def islog(n):
    if isinstance(n, ast.Expr):
        n = n.value
    if not isinstance(n, ast.Call):
        return False
    f = n.func
    return isinstance(f, ast.Attribute) and f.attr in LOGS or isinstance(f, ast.Name) and f.id in LOGS


def mutants(tree):
    """[(line, words, function that mutates and gives back how to undo)]"""
    out = []

    def sub(n, field, new, words, i=None):
        def do():
            if i is None:
                old = getattr(n, field)
                setattr(n, field, new)
                return lambda: setattr(n, field, old)
            l = getattr(n, field)
            old = l[i]
            l[i] = new
            return lambda: l.__setitem__(i, old)
        out.append((getattr(n, 'lineno', 0) or getattr(new, 'lineno', 0), words, do))

    def u(n):
        return ast.unparse(n).replace('\n', ' ')[:70]

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name in SKIPF or islog(n):
            return
        if isinstance(n, ast.FunctionDef) and any(isinstance(x, ast.Raise) and 'NotImplemented' in u(x) for x in n.body):
            return
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                if type(op) in CMP:
                    sub(n, 'ops', CMP[type(op)](), '%s: %s' % (CMP[type(op)].__name__, u(n)), i)
                if type(op) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                    w = ast.Gt if type(op) in (ast.Lt, ast.LtE) else ast.Lt
                    sub(n, 'ops', w(), '%s: %s' % (w.__name__, u(n)), i)
        elif isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN and not (isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            sub(n, 'op', BIN[type(n.op)](), '%s: %s' % (BIN[type(n.op)].__name__, u(n)))
        elif isinstance(n, ast.BoolOp):
            sub(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And(), 'and/or: %s' % u(n))
            if len(n.values) > 1:
                for i in range(len(n.values)):
                    sub(n, 'values', n.values[:i] + n.values[i + 1:], 'without %d: %s' % (i, u(n)))
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                sub(n, 'value', not v, '%r' % (not v))
            elif isinstance(v, int):
                sub(n, 'value', v + 1, '%r for %r' % (v + 1, v))
                if v:
                    sub(n, 'value', v - 1, '%r for %r' % (v - 1, v))
            elif isinstance(v, float):
                sub(n, 'value', v * 1.5 + 0.01, '%r for %r' % (v * 1.5 + 0.01, v))
            elif isinstance(v, str) and v:
                sub(n, 'value', v + 'x', 'string %r' % v)
        elif isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.Not):
                sub(n, 'op', ast.UAdd(), 'no not: %s' % u(n)) if False else None
            elif isinstance(n.op, ast.USub):
                sub(n, 'op', ast.UAdd(), 'no minus: %s' % u(n))
        for f in ('test',):
            t = getattr(n, f, None)
            if isinstance(t, ast.AST):
                sub(n, f, ast.copy_location(ast.UnaryOp(ast.Not(), t), t), 'negated: %s' % u(t))
                if isinstance(n, (ast.If, ast.IfExp)):
                    sub(n, f, ast.copy_location(ast.Constant(True), t), 'True: %s' % u(t))
                    sub(n, f, ast.copy_location(ast.Constant(False), t), 'False: %s' % u(t))
        for f, v in ast.iter_fields(n):
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                for i, st in enumerate(v):
                    if isinstance(st, (ast.Assign, ast.AugAssign, ast.Delete, ast.Break, ast.Continue, ast.Raise, ast.Return)) or \
                            isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and not islog(st):
                        if isinstance(n, ast.Module):
                            continue
                        sub(n, f, ast.copy_location(ast.Pass(), st), 'without: %s' % u(st), i)
                        out[-1] = (st.lineno,) + out[-1][1:]
                    if isinstance(st, ast.Break):
                        sub(n, f, ast.copy_location(ast.Continue(), st), 'continue for break', i)
                        out[-1] = (st.lineno,) + out[-1][1:]
            for i, x in enumerate(v if isinstance(v, list) else [v]):
                if isinstance(x, ast.Call):
                    k = i if isinstance(v, list) else None
                    name = x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else ''
                    if name in FUN:
                        y = copy.copy(x)
                        y.func = copy.copy(x.func)
                        setattr(y.func, 'id' if isinstance(x.func, ast.Name) else 'attr', FUN[name])
                        sub(n, f, y, '%s: %s' % (FUN[name], u(x)), k)
                    if name in DROP and len(x.args) >= 1:
                        sub(n, f, x.args[0], 'no %s: %s' % (name, u(x)), k)
                    if name == 'copy':
                        sub(n, f, x.args[0] if x.args else x.func.value, 'no copy: %s' % u(x), k)
                    for j in range(len(x.keywords)):
                        y = copy.copy(x)
                        y.keywords = x.keywords[:j] + x.keywords[j + 1:]
                        sub(n, f, y, 'no %s=: %s' % (x.keywords[j].arg, u(x)), k)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant):
                continue
            visit(c)
    visit(tree)
    return out


def child(name, code, order, seconds, fd):
    def say(x):
        os.write(fd, json.dumps(x).encode())
        os._exit(0)
    dn = os.open('/dev/null', os.O_WRONLY)
    os.dup2(dn, 1)
    os.dup2(dn, 2)
    old = env.CODE.table[name]
    env.CODE.table[name] = (code,) + old[1:]
    env.install()
    err = None
    for pid in order:
        t0 = time.time()
        i = 0
        p = core.prop(pid)
        while time.time() - t0 < seconds and i < 4000:
            try:
                o = core.execute(p, core.scenario(p, pid, 1, i, 'quick'))
                if o.violations:
                    say(['V', pid, i, o.violations[0][0], err])
            except BaseException as e:
                err = err or [pid, i, type(e).__name__, str(e)[:150]]
                if i > 60:
                    break
            i += 1
    say(['E', err] if err else ['S'])


def main():
    a = sys.argv[1:]
    out = open(a.pop(0), 'a')
    n, seconds, part, of, mods, allof = 6, 3.0, 0, 1, [], False
    while a:
        x = a.pop(0)
        if x == '-j':
            n = int(a.pop(0))
        elif x == '-s':
            seconds = float(a.pop(0))
        elif x == '-a':
            allof = True
        elif x == '-k':
            part, of = map(int, a.pop(0).split('/'))
        else:
            mods.append(x)
    for k in ['C%02d' % k for k in range(1, 24)]:
        core.prop(k)
    env.install()
    if env.CODE.table is None:
        env.CODE.load()
    jobs = []
    for m in mods or list(ORDER):
        name = 'gsapi.' + m
        path = env.CODE.table[name][1]
        tree = ast.parse(open(path).read())
        seen = set()
        for line, words, do in mutants(tree):
            undo = do()
            try:
                t = ast.fix_missing_locations(copy.deepcopy(tree))
                code = compile(t, path, 'exec', 0, 1)
                d = ast.dump(t)
            except Exception:
                continue
            finally:
                undo()
            if d in seen:
                continue
            seen.add(d)
            jobs.append((m, line, words, code))
    jobs = jobs[part::of]
    print(len(jobs), 'mutants')
    running = {}
    todo = list(reversed(jobs))
    count = {}
    while todo or running:
        while todo and len(running) < n:
            m, line, words, code = todo.pop()
            order = ORDER[m].split()
            if allof:
                order += [k for k in ['C%02d' % k for k in range(1, 24)] if k not in order]
            r, w = os.pipe()
            pid = os.fork()
            if not pid:
                os.close(r)
                os.setsid()
                child('gsapi.' + m, code, order, seconds, w)
            os.close(w)
            running[pid] = (m, line, words, r, time.time())
        time.sleep(0.02)
        for pid in list(running):
            m, line, words, r, t0 = running[pid]
            if time.time() - t0 > seconds * 23 + 60:
                os.kill(pid, signal.SIGKILL)
            if os.waitpid(pid, os.WNOHANG)[0]:
                d = os.read(r, 1 << 16)
                os.close(r)
                x = json.loads(d.decode()) if d else ['T']
                out.write('%s %s:%d %s | %s\n' % (x[0], m, line, words, json.dumps(x[1:])))
                out.flush()
                count[x[0]] = count.get(x[0], 0) + 1
                del running[pid]
    print(count)


main()
