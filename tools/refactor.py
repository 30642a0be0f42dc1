#!/usr/bin/env python3
"""Development tool: rewrite a copy of the library without changing what it does, to see that the checks stay quiet.

  refactor.py DIR MODE...     DIR is a copy of the repository; modes: noop result invert while locals private helper comment
"""
import ast, os, sys


class Refactor(ast.NodeTransformer):
    def __init__(self, modes):
        self.m, self.k, self.depth = set(modes), 0, 0

    def name(self, s):
        self.k += 1
        return '_%s_%d' % (s, self.k)

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            out += r if isinstance(r, list) else [r]
        return out

    def visit_FunctionDef(self, n):
        self.depth += 1
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n))
        doc = n.body[:1] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else []
        body = self.block(n.body[len(doc):])
        if 'noop' in self.m:
            body = ast.parse('_unused = None').body + body
        n.body = doc + body
        if 'locals' in self.m and not any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal)) for b in n.body for x in ast.walk(b)):
            args = set(a.arg for a in ast.walk(n.args) if isinstance(a, ast.arg))
            loc = set(x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)) - args
            loc |= set()
            for b in n.body:
                for x in ast.walk(b):
                    if isinstance(x, ast.Name) and x.id in loc:
                        x.id = x.id + '_renamed'
                    if isinstance(x, ast.ExceptHandler) and x.name:
                        loc.add(x.name)
            for b in n.body:
                for x in ast.walk(b):
                    if isinstance(x, ast.ExceptHandler) and x.name and not x.name.endswith('_renamed'):
                        old = x.name
                        x.name = old + '_renamed'
                        for y in ast.walk(b):
                            if isinstance(y, ast.Name) and y.id == old:
                                y.id = old + '_renamed'
        self.depth -= 1
        return n

    def visit_Return(self, n):
        self.generic_visit(n)
        if 'result' in self.m and n.value is not None and not isinstance(n.value, ast.Constant):
            v = self.name('result')
            return [ast.Assign([ast.Name(v, ast.Store())], n.value), ast.Return(ast.Name(v, ast.Load()))]
        return n

    def _blocks(self, n):
        for f in ('body', 'orelse', 'finalbody'):
            if getattr(n, f, None):
                setattr(n, f, self.block(getattr(n, f)))
        return n

    def visit_If(self, n):
        self._blocks(n)
        if 'invert' in self.m and self.depth:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse or [ast.Pass()], n.body)
        return n

    def visit_For(self, n):
        self._blocks(n)
        if 'while' in self.m and self.depth and not n.orelse:
            it, x = self.name('iterator'), self.name('item')
            t = ast.parse('%s = iter(0)\nwhile True:\n try:\n  %s = next(%s)\n except StopIteration:\n  break' % (it, x, it)).body
            t[0].value.args[0] = n.iter
            t[1].body += [ast.Assign([n.target], ast.Name(x, ast.Load()))] + n.body
            return t
        return n

    def visit_While(self, n):
        return self._blocks(n)

    def visit_With(self, n):
        return self._blocks(n)

    def visit_Try(self, n):
        self._blocks(n)
        for h in n.handlers:
            h.body = self.block(h.body)
        return n

    def visit_ClassDef(self, n):
        d, self.depth = self.depth, 0
        n.body = self.block(n.body)
        self.depth = d
        return n

    def visit_Module(self, n):
        n.body = self.block(n.body)
        return n

    def visit_ListComp(self, n):
        self.generic_visit(n)
        if 'helper' in self.m and self.depth:
            return ast.Call(ast.Name('list', ast.Load()), [ast.GeneratorExp(n.elt, n.generators)], [])
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if 'helper' in self.m and self.depth and len(n.ops) == 1:
            o = n.ops[0]
            if isinstance(o, ast.IsNot):
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.Is()], n.comparators))
            if isinstance(o, ast.NotIn):
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [ast.In()], n.comparators))
        return n


def main():
    d, modes = sys.argv[1], sys.argv[2:]
    names = {}
    files = []
    for root, _, fs in os.walk(os.path.join(d, 'datashape')):
        if 'tests' in root:
            continue
        files += [os.path.join(root, f) for f in fs if f.endswith('.py') and f not in ('_version.py', 'py2help.py')]
    for p in files:
        s = open(p).read()
        if 'private' in modes:
            for a in ('_registry', '_toposort', '_launder_type', '_launder', '_order', '_set', '_slotted', '_parameters', '_itemsize', '_alignment', '_escape_quoted', '_format_categories', '_typevar_dtype', '_fmt_path', '_mapping_discover', '_base_case', '_check_slots'):
                import re
                s = re.sub(r'(?<![A-Za-z0-9_])%s(?![A-Za-z0-9_])' % a, a + '_internal', s)
        if set(modes) - {'private', 'comment'}:
            t = ast.fix_missing_locations(Refactor(modes).visit(ast.parse(s)))
            s = ast.unparse(t) + '\n'
        if 'comment' in modes:
            s += '# the end\n'
        open(p, 'w').write(s)


main()
