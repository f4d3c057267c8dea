"""
Behaviour-preserving rewriting of every source file of a copy of /repo (unparsed, local names renamed, private helpers
renamed, results held in a temporary, two-branch conditions turned round, conditions named): no check may alarm on it.

usage: refactor.py COPY [all|locals|private|returns|branches|tests ...]
"""
import ast
import glob
import os
import sys
import warnings

warnings.simplefilter('ignore')


class Locals(ast.NodeTransformer):
    def visit_FunctionDef(self, f):
        stored = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        out = set()
        for n in ast.walk(f):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                out |= set(n.names)
            if isinstance(n, ast.arg):
                out.add(n.arg)
            if isinstance(n, ast.ExceptHandler) and n.name:
                out.add(n.name)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not f:
                out.add(n.name)
        stored -= out
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in stored:
                n.id += '_v'
        return f


class Private(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        if f.name in self.names:
            f.name += '_impl'
        return f

    def visit_Name(self, n):
        if n.id in self.names:
            n.id += '_impl'
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr in self.names and isinstance(n.value, ast.Name) and n.value.id == 'self':
            n.attr += '_impl'
        return n


class Returns(ast.NodeTransformer):
    def visit_Lambda(self, n):
        return n

    def visit_Return(self, r):
        if r.value is None or isinstance(r.value, (ast.Constant, ast.Name)):
            return r
        return [ast.Assign(targets=[ast.Name('result_', ast.Store())], value=r.value, lineno=r.lineno), ast.Return(ast.Name('result_', ast.Load()))]


class Branches(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        n.test, n.body, n.orelse = ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body
        return n


class Tests(ast.NodeTransformer):
    """if a: -> cond_ = a; if cond_:   (not for elif)"""
    def inside(self, body):
        res = []
        for s in body:
            self.visit(s)
            if isinstance(s, ast.If) and self.f:
                res.append(ast.Assign(targets=[ast.Name('cond_', ast.Store())], value=s.test, lineno=s.lineno))
                s.test = ast.Name('cond_', ast.Load())
            res.append(s)
        return res
    f = 0

    def generic_visit(self, n):
        infun = isinstance(n, ast.FunctionDef)
        self.f += infun
        if isinstance(n, ast.ClassDef):
            f, self.f = self.f, 0
        for k, v in ast.iter_fields(n):
            if k in ('body', 'orelse', 'finalbody') and isinstance(v, list):
                if k == 'orelse' and isinstance(n, ast.If) and len(v) == 1 and isinstance(v[0], ast.If):
                    self.visit(v[0])
                else:
                    setattr(n, k, self.inside(v))
            elif k == 'handlers':
                for h in v:
                    self.visit(h)
        if isinstance(n, ast.ClassDef):
            self.f = f
        self.f -= infun
        return n


def main():
    copy, kinds = sys.argv[1], sys.argv[2:] or ['all']
    on = lambda k: k in kinds or 'all' in kinds
    files = [f for f in glob.glob(copy + '/structrans/**/*.py', recursive=True) if '/test' not in f and os.path.getsize(f)]
    texts = {f: open(f).read() for f in files}
    for f in files:
        try:
            t = ast.parse(texts[f])
        except SyntaxError:
            continue
        if on('private'):
            names = {n.name for n in ast.walk(t) if isinstance(n, ast.FunctionDef) and n.name.startswith('_') and not n.name.endswith('__')}
            names = {n for n in names if not any(n in texts[g] for g in texts if g != f)}
            t = Private(names).visit(t)
        if on('locals'):
            for n in ast.walk(t):
                if isinstance(n, ast.Module) or isinstance(n, ast.ClassDef):
                    n.body = [Locals().visit(s) if isinstance(s, ast.FunctionDef) else s for s in n.body]
        if on('returns'):
            t = Returns().visit(t)
        if on('branches'):
            t = Branches().visit(t)
        if on('tests'):
            t = Tests().visit(t)
        ast.fix_missing_locations(t)
        open(f, 'w').write(ast.unparse(t) + '\n')


main()
