#!/usr/bin/env python3
"""Development tool: small mechanical changes of the library, against thinned checks and the test suite.

  PYTHONPATH=/verif /opt/venv/bin/python tools/mutate.py OUT.jsonl [--files a.py,b.py] [--space SECONDS] [--only KEYS.txt]

Not used by any check.  Every mutant of every function is compiled, put in place of the function's code in a forked
process, and the spaces of the checks (built once, with the library unchanged) are run for a short time each on evenly
spread cases.  What no space reports is given to the test suite; what survives both is listed for a closer look.
"""
import ast, copy, gc, hashlib, io, itertools, json, os, random, select, signal, sys, time, traceback
sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
os.environ.setdefault('VERIF_STALL', '4')
REPO = os.environ.get('VERIF_REPO', '/repo')
FILES = ['coretypes.py', 'parser.py', 'lexer.py', 'discovery.py', 'promote.py', 'predicates.py', 'user.py', 'util/__init__.py', 'util/testing.py',
         'typesets.py', 'type_symbol_table.py', 'validation.py', 'error.py', 'internal_utils.py', 'dispatch.py', 'type_equation_solver.py']
OWN = {'lexer.py': ['C04', 'C03', 'C02'], 'parser.py': ['C02', 'C03', 'C05', 'C23'], 'error.py': ['C03'], 'discovery.py': ['C12', 'C13', 'C14'], 'promote.py': ['C15'],
       'predicates.py': ['C17', 'C18'], 'user.py': ['C16'], 'util/testing.py': ['C19'], 'typesets.py': ['C20', 'C23'], 'type_symbol_table.py': ['C02', 'C23', 'C05'],
       'validation.py': ['C08', 'C18'], 'util/__init__.py': ['C08', 'C11', 'C01'], 'internal_utils.py': ['C10', 'C24'], 'coretypes.py': ['C01', 'C06', 'C07', 'C09', 'C10', 'C24']}
CHECKS = ['C%02d' % i for i in range(1, 26) if i not in (22, 25)]


FUNCS = []


# ------------------------------------------------------------------ mutants
def mutants(tree):
    """(path description, function that edits a deep copy in place)"""
    nodes = list(ast.walk(tree))
    docs = set(id(n.value) for n in nodes if isinstance(n, ast.Expr))
    out = []

    def put(i, what, f):
        out.append((i, what, f))
    CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
           ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
    BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.Add], ast.Div: [ast.Mult], ast.BitOr: [ast.BitAnd], ast.BitAnd: [ast.BitOr]}
    for i, n in enumerate(nodes):
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                for r in CMP.get(type(op), []):
                    put(i, '%s -> %s' % (type(op).__name__, r.__name__), lambda m, k=k, r=r: m.ops.__setitem__(k, r()))
        if isinstance(n, ast.BoolOp):
            put(i, 'and <-> or', lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And()))
            for k in range(len(n.values)):
                put(i, 'operand %d dropped' % k, lambda m, k=k: m.values.__delitem__(k))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(i, 'not dropped', lambda m: setattr(m, 'op', ast.Not()) or setattr(m, 'operand', ast.UnaryOp(ast.Not(), m.operand)))
        if isinstance(n, (ast.If, ast.IfExp)):
            for v in (True, False):
                put(i, 'condition %s' % v, lambda m, v=v: setattr(m, 'test', ast.Constant(v)))
        if isinstance(n, ast.While):
            put(i, 'condition False', lambda m: setattr(m, 'test', ast.Constant(False)))
        if isinstance(n, ast.Constant) and id(n) not in docs:
            v = n.value
            if isinstance(v, bool):
                put(i, 'not %s' % v, lambda m: setattr(m, 'value', not m.value))
            elif isinstance(v, int):
                put(i, '%d + 1' % v, lambda m: setattr(m, 'value', m.value + 1))
                put(i, '%d - 1' % v, lambda m: setattr(m, 'value', m.value - 1))
            elif isinstance(v, str) and v:
                put(i, '%r emptied' % v[:20], lambda m: setattr(m, 'value', ''))
                put(i, '%r changed' % v[:20], lambda m: setattr(m, 'value', m.value + 'x'))
            elif v is None:
                put(i, 'None -> 0', lambda m: setattr(m, 'value', 0))
        if isinstance(n, ast.BinOp):
            for r in BIN.get(type(n.op), []):
                put(i, '%s -> %s' % (type(n.op).__name__, r.__name__), lambda m, r=r: setattr(m, 'op', r()))
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            put(i, 'return None', lambda m: setattr(m, 'value', ast.Constant(None)))
        if isinstance(n, ast.Call):
            for k in range(len(n.args)):
                put(i, 'argument %d dropped' % k, lambda m, k=k: m.args.__delitem__(k))
            for k in range(len(n.keywords)):
                put(i, 'keyword %d dropped' % k, lambda m, k=k: m.keywords.__delitem__(k))
            for k in range(len(n.args) - 1):
                put(i, 'arguments %d, %d swapped' % (k, k + 1), lambda m, k=k: m.args.__setitem__(slice(k, k + 2), m.args[k:k + 2][::-1]))
            if len(n.args) == 1 and not n.keywords:
                put(i, 'call dropped', 'UNWRAP')
            if isinstance(n.func, ast.Name) and n.func.id in ('all', 'any', 'min', 'max', 'sorted', 'list', 'set', 'reversed'):
                o = {'all': 'any', 'any': 'all', 'min': 'max', 'max': 'min', 'sorted': 'list', 'list': 'set', 'set': 'list', 'reversed': 'iter'}[n.func.id]
                put(i, '%s -> %s' % (n.func.id, o), lambda m, o=o: setattr(m, 'func', ast.Name(o, ast.Load())))
        if isinstance(n, ast.Slice):
            for a in ('lower', 'upper', 'step'):
                if getattr(n, a) is not None:
                    put(i, 'slice without %s' % a, lambda m, a=a: setattr(m, a, None))
        if isinstance(n, (ast.List, ast.Tuple)) and isinstance(n.ctx, ast.Load) and len(n.elts) > 1:
            for k in range(len(n.elts)):
                put(i, 'element %d dropped' % k, lambda m, k=k: m.elts.__delitem__(k))
            for k in range(len(n.elts) - 1):
                put(i, 'elements %d, %d swapped' % (k, k + 1), lambda m, k=k: m.elts.__setitem__(slice(k, k + 2), m.elts[k:k + 2][::-1]))
        if isinstance(n, ast.comprehension):
            for k in range(len(n.ifs)):
                put(i, 'filter dropped', lambda m, k=k: m.ifs.__delitem__(k))
        if isinstance(n, ast.Break):
            put(i, 'break -> continue', 'CONTINUE')
        if isinstance(n, ast.Continue):
            put(i, 'continue -> break', 'BREAK')
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in ('shape', 'measure', 'parameters', 'names', 'types', 'add', 'update', 'lower', 'strip'):
            o = {'shape': 'parameters', 'measure': 'shape', 'parameters': 'shape', 'names': 'types', 'types': 'names', 'add': 'discard', 'update': 'difference_update', 'lower': 'upper', 'strip': 'lstrip'}[n.attr]
            put(i, '.%s -> .%s' % (n.attr, o), lambda m, o=o: setattr(m, 'attr', o))
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if isinstance(b, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                for k, s in enumerate(b):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.For, ast.If, ast.With, ast.Delete)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        put(i, 'statement %s[%d] dropped' % (fld, k), lambda m, fld=fld, k=k: getattr(m, fld).__setitem__(k, ast.copy_location(ast.Pass(), getattr(m, fld)[k])))
    return nodes, out


class Swap(ast.NodeTransformer):
    def __init__(self, target, new):
        self.t, self.n = target, new

    def visit(self, node):
        if node is self.t:
            return ast.copy_location(self.n, node)
        return self.generic_visit(node)


def build(src, fn, i, f):
    tree = ast.parse(src)
    m = list(ast.walk(tree))[i]
    if f == 'UNWRAP':
        tree = Swap(m, m.args[0]).visit(tree)
    elif f in ('CONTINUE', 'BREAK'):
        tree = Swap(m, ast.Continue() if f == 'CONTINUE' else ast.Break()).visit(tree)
    else:
        f(m)
        for fld in ('values',):
            v = getattr(m, fld, None)
            if isinstance(m, ast.BoolOp) and len(v) == 1:
                tree = Swap(m, v[0]).visit(tree)
    ast.fix_missing_locations(tree)
    return tree, m


def codes(co):
    yield co
    for c in co.co_consts:
        if isinstance(c, type(co)):
            for x in codes(c):
                yield x


def key_of(co):
    return (co.co_name, co.co_firstlineno)


# ------------------------------------------------------------------ running
def load_spaces(names):
    from mc import core
    core.import_subject()
    out = {}
    for c in names:
        core.CURRENT[0] = c
        mod = core.load(c)
        t0 = time.time()
        out[c] = mod.spaces('quick')
        print('built', c, round(time.time() - t0, 1), flush=True)
    return core, out


def spread(space, seed):
    if callable(space.cases):
        for sh in (3, 1, 0):
            for x in space.cases(sh, 499):
                yield x
    else:
        n = len(space.cases)
        step = 1
        while step * step < n:
            step += 1
        for a in range(step):
            for j in range(a, n, step):
                yield space.cases[j]


def attack(core, spaces, order, budget):
    for c in order:
        core.CURRENT[0] = c
        for sp in spaces[c]:
            t0 = time.time()
            if sp.setup:
                sp.setup()
            with core.stall_guard():
                for case in spread(sp, 0):
                    core._progress[0] += 1
                    out, msg = core.run_case(sp, case)
                    if msg is not None:
                        return c, sp.name, msg[:200]
                    if time.time() - t0 > budget:
                        break
    return None


def tests():
    """do the stable tests fail in this process?"""
    import pytest
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    passed = set()

    class P(object):
        def pytest_runtest_logreport(self, report):
            if report.when == 'call' and report.passed:
                passed.add(report.nodeid)
    os.chdir(REPO)
    pytest.main(['-q', '-p', 'no:cacheprovider', '--no-header', '--tb=no', '--doctest-modules', 'datashape'], plugins=[P()])
    return passed


def apply_code(path, tree):
    new = {}
    for co in codes(compile(tree, path, 'exec')):
        new.setdefault(key_of(co), []).append(co)
    n = 0
    for f in FUNCS:
        if f.__code__.co_filename == path:
            k = key_of(f.__code__)
            for co in new.get(k, []):
                if len(co.co_freevars) == len(f.__code__.co_freevars) and co.co_argcount == f.__code__.co_argcount and (co.co_code != f.__code__.co_code or co.co_consts != f.__code__.co_consts or co.co_names != f.__code__.co_names):
                    if len(new[k]) > 1 and co.co_varnames != f.__code__.co_varnames:
                        continue
                    f.__code__ = co
                    n += 1
                    break
    return n


def main():
    a = sys.argv[1:]
    outp = a.pop(0)
    files, budget, only, jobs = FILES, 0.6, None, 8
    while a:
        x = a.pop(0)
        if x == '--files':
            files = a.pop(0).split(',')
        elif x == '--space':
            budget = float(a.pop(0))
        elif x == '--jobs':
            jobs = int(a.pop(0))
        elif x == '--only':
            only = set(l.split('\t')[0].strip() for l in open(a.pop(0)))
    done = set()
    if os.path.exists(outp):
        done = set(json.loads(l)['key'] for l in open(outp))
    core, spaces = load_spaces(CHECKS)
    import datashape
    todo = []
    for fn in files:
        path = os.path.join(REPO, 'datashape', fn)
        if not os.path.exists(path):
            continue
        src = open(path).read()
        tree = ast.parse(src)
        nodes, ms = mutants(tree)
        spans = [(n.lineno, n.end_lineno) for n in nodes if isinstance(n, (ast.FunctionDef, ast.Lambda))]
        for j, (i, what, f) in enumerate(ms):
            ln = getattr(nodes[i], 'lineno', None) or getattr(getattr(nodes[i], 'target', None), 'lineno', 0)
            if not any(x <= ln <= y for x, y in spans):
                continue
            key = '%s:%d:%s:%d' % (fn, ln, what, j)
            if isinstance(nodes[i], ast.Constant) and isinstance(nodes[i].value, str) and ' ' in nodes[i].value:
                continue                               # a message
            if key not in done and (only is None or key in only):
                todo.append((key, fn, path, src, i, f, ln))
    print(len(todo), 'mutants', flush=True)
    if os.environ.get('COUNT'):
        return
    r, w = os.pipe()
    if os.fork() == 0:                             # what passes here with nothing changed
        dn = os.open('/dev/null', os.O_RDWR)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
        with os.fdopen(w, 'w') as f:
            json.dump(sorted(tests()), f)
        os._exit(0)
    os.close(w)
    base = set(json.load(os.fdopen(r)))
    os.wait()
    print(len(base), 'tests pass', flush=True)
    assert len(base) > 350
    gc.unfreeze()
    FUNCS.extend(f for f in gc.get_objects() if type(f) is type(main) and f.__code__.co_filename.startswith(REPO))
    print(len(FUNCS), "functions", flush=True)
    gc.freeze()
    running = {}
    out = open(outp, 'a')

    def reap(block):
        r, _, _ = select.select(list(running), [], [], 1 if block else 0)
        for fd in list(running):
            pid, key, t0, fn, ln, buf = running[fd]
            if fd in r:
                d = os.read(fd, 65536)
                if d:
                    buf.append(d)
                    continue
                os.close(fd)
                os.waitpid(pid, 0)
                del running[fd]
                s = b''.join(buf).decode()
                try:
                    rec = json.loads(s)
                except Exception:
                    rec = {'result': 'died'}
                rec.update(key=key, t=round(time.time() - t0, 1))
                out.write(json.dumps(rec) + '\n')
                out.flush()
            elif time.time() - t0 > 400:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
    for key, fn, path, src, i, f, ln in todo:
        while len(running) >= jobs:
            reap(True)
        rfd, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rfd)
            os.setpgid(0, 0)
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
            rec = {}
            try:
                dn = os.open('/dev/null', os.O_RDWR)
                os.dup2(dn, 1)
                os.dup2(dn, 2)
                tree, m = build(src, fn, i, f)
                try:
                    n = apply_code(path, tree)
                except (ValueError, SyntaxError, TypeError) as e:
                    n = 0
                if not n:
                    rec = {'result': 'not applied'}
                else:
                    order = OWN.get(fn, []) + [c for c in CHECKS if c not in OWN.get(fn, [])]
                    got = attack(core, spaces, order, budget)
                    if got:
                        rec = {'result': 'caught', 'by': got[0], 'space': got[1], 'msg': got[2]}
                    else:
                        p = tests()
                        rec = {'result': 'uncaught' if base <= p else 'tests fail'}
            except BaseException:
                rec = {'result': 'error', 'msg': traceback.format_exc()[-600:]}
            os.write(wfd, json.dumps(rec).encode())
            os._exit(0)
        os.close(wfd)
        running[rfd] = (pid, key, time.time(), fn, ln, [])
        reap(False)
    while running:
        reap(True)


if __name__ == '__main__':
    main()
