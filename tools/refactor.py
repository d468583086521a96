"""Behaviour-preserving rewrites of the whole package, one kind at a time, each
in a scratch copy; every check must stay quiet on each of them.

    python tools/refactor.py [KIND ...] [--checks C01 C02 ...] [--keep DIR]

Not used by any registered check.
"""
import argparse
import ast
import copy
import os
import shutil
import subprocess
import sys

REPO, VERIF, PY = '/repo', '/verif', '/opt/venv/bin/python'
FUNCS = (ast.FunctionDef,)


def body_start(fn):
    b = fn.body
    return 1 if (b and isinstance(b[0], ast.Expr)
                 and isinstance(b[0].value, ast.Constant)
                 and isinstance(b[0].value.value, str)) else 0


class T(ast.NodeTransformer):
    def __init__(self, tree, info):
        self.n, self.info = 0, info

    def fresh(self, base):
        self.n += 1
        return f'{base}{self.n}'


class Unparse(T):
    pass


class Noop(T):
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        i = body_start(f)
        f.body[i:i] = ast.parse('unused_marker = None\ndel unused_marker').body
        return f


class ReturnTemp(T):
    def visit_Return(self, r):
        if r.value is None:
            return r
        n = self.fresh('result_')
        return [ast.Assign([ast.Name(n, ast.Store())], r.value),
                ast.Return(ast.Name(n, ast.Load()))]


class InvertIf(T):
    def visit_If(self, i):
        self.generic_visit(i)
        if i.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), i.test), i.orelse, i.body)
        return ast.If(ast.UnaryOp(ast.Not(), i.test), [ast.Pass()], i.body)

    def visit_IfExp(self, i):
        self.generic_visit(i)
        return ast.IfExp(ast.UnaryOp(ast.Not(), i.test), i.orelse, i.body)


class FlipCompare(T):
    FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE,
            ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq,
            ast.Is: ast.Is, ast.IsNot: ast.IsNot}

    def visit_Compare(self, c):
        self.generic_visit(c)
        if len(c.ops) == 1 and type(c.ops[0]) in self.FLIP:
            return ast.Compare(c.comparators[0],
                               [self.FLIP[type(c.ops[0])]()], [c.left])
        return c


class DeMorgan(T):
    def visit_If(self, i):
        self.generic_visit(i)
        if isinstance(i.test, ast.BoolOp):
            op = ast.Or() if isinstance(i.test.op, ast.And) else ast.And()
            i.test = ast.UnaryOp(ast.Not(), ast.BoolOp(
                op, [ast.UnaryOp(ast.Not(), v) for v in i.test.values]))
        return i


class ForWhile(T):
    def visit_For(self, f):
        self.generic_visit(f)
        if f.orelse:
            return f
        n = self.fresh('iterator_')
        src = ast.parse(f'{n} = iter(X)\nwhile True:\n    try:\n'
                        f'        Y = next({n})\n'
                        '    except StopIteration:\n        break').body
        src[0].value.args = [f.iter]
        src[1].body[0].body[0].targets = [f.target]
        src[1].body += f.body
        return src


class CompLoop(T):
    def visit_Assign(self, a):
        v = a.value
        if isinstance(v, ast.ListComp) and len(v.generators) == 1:
            names = {x.id for x in ast.walk(v.generators[0].target)
                     if isinstance(x, ast.Name)}
            n = self.fresh('items_')

            class R(ast.NodeTransformer):
                def visit_Name(s, x):
                    if x.id in names:
                        return ast.Name(f'{x.id}_{n}', x.ctx)
                    return x
            g = v.generators[0]
            it = g.iter
            g = R().visit(copy.deepcopy(g))
            elt = R().visit(copy.deepcopy(v.elt))
            body = [ast.Expr(ast.Call(ast.Attribute(
                ast.Name(n, ast.Load()), 'append', ast.Load()), [elt], []))]
            for c in g.ifs:
                body = [ast.If(c, body, [])]
            return [ast.Assign([ast.Name(n, ast.Store())],
                               ast.List([], ast.Load())),
                    ast.For(g.target, it, body, []),
                    ast.Assign(a.targets, ast.Name(n, ast.Load()))]
        return a


class RenameLocals(T):
    def visit_FunctionDef(self, f):
        inner = [x for x in ast.walk(f)
                 if x is not f and isinstance(x, (ast.FunctionDef, ast.Lambda,
                                                  ast.ClassDef))]
        if inner:
            self.generic_visit(f)
            return f
        if any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(f)):
            return f
        params = {x.arg for x in ast.walk(f.args) if isinstance(x, ast.arg)}
        names = {x.id for s in f.body for x in ast.walk(s)
                 if isinstance(x, ast.Name)
                 and isinstance(x.ctx, ast.Store)} - params
        if any(isinstance(x, (ast.Import, ast.ImportFrom))
               for x in ast.walk(f)):
            return f

        class R(ast.NodeTransformer):
            def visit_Name(s, x):
                return ast.Name(x.id + '_local', x.ctx) \
                    if x.id in names else x

            def visit_ExceptHandler(s, h):
                s.generic_visit(h)
                return h
        names -= {h.name for h in ast.walk(f)
                  if isinstance(h, ast.ExceptHandler) and h.name}
        f.body = [R().visit(s) for s in f.body]
        return f


class ReorderMethods(T):
    def visit_ClassDef(self, c):
        self.generic_visit(c)
        plain = [i for i, s in enumerate(c.body)
                 if isinstance(s, FUNCS) and not s.decorator_list]
        used = {x.id for s in c.body if not isinstance(s, FUNCS)
                for x in ast.walk(s) if isinstance(x, ast.Name)}
        plain = [i for i in plain if c.body[i].name not in used]
        rev = [c.body[i] for i in reversed(plain)]
        for i, s in zip(plain, rev):
            c.body[i] = s
        return c


class ExtractHelper(T):
    """The body of each method moves to a helper method."""
    def visit_ClassDef(self, c):
        self.generic_visit(c)
        bases = {ast.unparse(b) for b in c.bases}
        if bases & {'Enum', 'IntEnum', 'NamedTuple', 'Protocol', 'ABC'} \
                or any('Enum' in b for b in bases):
            return c
        extra = []
        for f in c.body:
            if not isinstance(f, FUNCS):
                continue
            decs = [ast.unparse(d) for d in f.decorator_list]
            if any(d in ('staticmethod', 'classmethod', 'abstractmethod')
                   or 'overload' in d for d in decs):
                continue
            a = f.args
            if not a.args:
                continue
            kind = ''.join(ch if ch.isalnum() else '_'
                           for d in decs for ch in d)
            hname = f'_{c.name.strip("_").lower()}_{f.name.strip("_")}' \
                    f'{kind}_body'
            h = copy.deepcopy(f)
            h.name, h.decorator_list = hname, []
            extra.append(h)
            me = a.args[0].arg
            call = ast.Call(
                ast.Attribute(ast.Name(me, ast.Load()), hname, ast.Load()),
                [ast.Name(x.arg, ast.Load())
                 for x in (a.posonlyargs + a.args)[1:]]
                + ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()))]
                   if a.vararg else []),
                [ast.keyword(x.arg, ast.Name(x.arg, ast.Load()))
                 for x in a.kwonlyargs]
                + ([ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))]
                   if a.kwarg else []))
            f.body = f.body[:body_start(f)] + [ast.Return(call)]
        c.body += extra
        return c


class ExtractFunc(T):
    """The body of each module-level function moves to a helper function."""
    def visit_Module(self, m):
        out = []
        for f in m.body:
            if isinstance(f, FUNCS):
                a = f.args
                h = copy.deepcopy(f)
                h.name, h.decorator_list = f'_{f.name}_body', []
                out.append(h)
                call = ast.Call(
                    ast.Name(h.name, ast.Load()),
                    [ast.Name(x.arg, ast.Load())
                     for x in a.posonlyargs + a.args]
                    + ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()))]
                       if a.vararg else []),
                    [ast.keyword(x.arg, ast.Name(x.arg, ast.Load()))
                     for x in a.kwonlyargs]
                    + ([ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))]
                       if a.kwarg else []))
                f.body = f.body[:body_start(f)] + [ast.Return(call)]
            out.append(f)
        m.body = out
        return m


class ConstNames(T):
    """Numbers inside functions become module constants."""
    def visit_Module(self, m):
        consts = {}

        class R(ast.NodeTransformer):
            def visit_Constant(s, c):
                if type(c.value) in (int, float) and c.value not in (0, 1):
                    k = (type(c.value).__name__, repr(c.value))
                    n = consts.setdefault(k, f'_NUMBER_{len(consts)}')
                    return ast.Name(n, ast.Load())
                return c

            def visit_JoinedStr(s, j):
                return j
        for f in ast.walk(m):
            if isinstance(f, FUNCS):
                f.body = [R().visit(s) for s in f.body]
        i = body_start(m)
        while i < len(m.body) and isinstance(m.body[i], ast.ImportFrom) \
                and m.body[i].module == '__future__':
            i += 1
        m.body[i:i] = [s for (t, v), n in consts.items()
                       for s in ast.parse(f'{n} = {v}').body]
        return m


class RenamePrivate(T):
    """Private attributes and methods get other names, across the package."""
    def new(self, n):
        return n + '_renamed' if n in self.info['private'] else n

    def visit_Attribute(self, a):
        self.generic_visit(a)
        a.attr = self.new(a.attr)
        return a

    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        f.name = self.new(f.name)
        return f

    def visit_Name(self, n):
        n.id = self.new(n.id)
        return n

    def visit_ClassDef(self, c):
        self.generic_visit(c)
        c.name = self.new(c.name)
        return c

    def visit_alias(self, a):
        a.name = self.new(a.name)
        return a


class AugAssign(T):
    """x += 1 becomes x = x + 1 (numbers only)."""
    def visit_AugAssign(self, a):
        if isinstance(a.value, ast.Constant) \
                and type(a.value.value) in (int, float) \
                and not any(isinstance(x, ast.Call) for x in ast.walk(a)):
            load = copy.deepcopy(a.target)
            load.ctx = ast.Load()
            return ast.Assign([a.target], ast.BinOp(load, a.op, a.value))
        return a


class NestGuard(T):
    """An early `if c: return x` takes the rest of the body as its else."""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        for i, s in enumerate(f.body[:-1]):
            if isinstance(s, ast.If) and not s.orelse \
                    and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                s.orelse = f.body[i + 1:]
                f.body = f.body[:i + 1]
                break
        return f


class ArgTemp(T):
    """Arguments of a call that is a whole statement go through locals."""
    def visit_Expr(self, e):
        c = e.value
        if isinstance(c, ast.Call) and c.args and not any(
                isinstance(x, ast.Starred) for x in c.args) \
                and isinstance(c.func, ast.Attribute) \
                and not any(isinstance(x, (ast.Yield, ast.Await))
                            for x in ast.walk(e)):
            out, args = [], []
            for x in c.args:
                n = self.fresh('arg_')
                out.append(ast.Assign([ast.Name(n, ast.Store())], x))
                args.append(ast.Name(n, ast.Load()))
            c.args = args
            return out + [e]
        return e


class StripDocs(T):
    def visit_Module(self, m):
        for f in ast.walk(m):
            if isinstance(f, (ast.FunctionDef, ast.ClassDef)) \
                    and body_start(f) and not any(
                        'click' in ast.unparse(d) for d in f.decorator_list):
                f.body = f.body[1:] or [ast.Pass()]
        return m


class Reassoc(T):
    """a + b + c becomes a + (b + c), a * b * c becomes a * (b * c), and
    a * b / c becomes a * (b / c): equal but for the last bit of a float."""
    def visit_BinOp(self, b):
        self.generic_visit(b)
        x = b.left
        if isinstance(x, ast.BinOp) and not any(
                isinstance(y, (ast.Str, ast.JoinedStr)) if hasattr(ast, 'Str')
                else isinstance(y, ast.JoinedStr) for y in ast.walk(b)):
            if type(x.op) is type(b.op) and isinstance(
                    b.op, (ast.Add, ast.Mult)):
                return ast.BinOp(x.left, x.op, ast.BinOp(x.right, b.op,
                                                         b.right))
            if isinstance(x.op, ast.Mult) and isinstance(b.op, ast.Div):
                return ast.BinOp(x.left, x.op, ast.BinOp(x.right, b.op,
                                                         b.right))
        return b


class Inline(T):
    """A local assigned once and read once, in the next statement, goes."""
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        names = [x for x in ast.walk(f) if isinstance(x, ast.Name)]
        for block in [x.body for x in ast.walk(f) if hasattr(x, 'body')
                      and isinstance(x.body, list)]:
            i = 0
            while i + 1 < len(block):
                a, b = block[i], block[i + 1]
                n = a.targets[0].id if isinstance(a, ast.Assign) and len(
                    a.targets) == 1 and isinstance(
                        a.targets[0], ast.Name) else None
                uses = [x for x in names if x.id == n]
                inb = [x for x in ast.walk(b) if x in uses]
                if n and len(uses) == 2 and len(inb) == 1 and isinstance(
                        b, (ast.Assign, ast.Return)) and isinstance(
                        b.value, (ast.BinOp, ast.Name, ast.Attribute)) \
                        and not any(isinstance(x, (ast.Call, ast.IfExp,
                                                   ast.BoolOp, ast.Lambda,
                                                   ast.ListComp))
                                    for x in ast.walk(b)):
                    class R(ast.NodeTransformer):
                        def visit_Name(self, x):
                            return a.value if x is inb[0] else x
                    block[i:i + 2] = [R().visit(b)]
                else:
                    i += 1
        return f


class SplitIf(T):
    """`if a and b` without else becomes two nested ifs."""
    def visit_If(self, i):
        self.generic_visit(i)
        if not i.orelse and isinstance(i.test, ast.BoolOp) and isinstance(
                i.test.op, ast.And):
            v = i.test.values
            rest = v[1] if len(v) == 2 else ast.BoolOp(ast.And(), v[1:])
            return ast.If(v[0], [ast.If(rest, i.body, [])], [])
        return i


class IfExpAssign(T):
    """x = a if c else b becomes a full if."""
    def visit_Assign(self, a):
        if isinstance(a.value, ast.IfExp):
            e = a.value
            return ast.If(e.test, [ast.Assign(a.targets, e.body)],
                          [ast.Assign(copy.deepcopy(a.targets), e.orelse)])
        return a

    def visit_Return(self, r):
        if isinstance(r.value, ast.IfExp):
            e = r.value
            return ast.If(e.test, [ast.Return(e.body)], [ast.Return(e.orelse)])
        return r


class FStr(T):
    """f-strings become str.format."""
    def visit_JoinedStr(self, j):
        text, args = '', []
        for v in j.values:
            if isinstance(v, ast.Constant):
                text += v.value.replace('{', '{{').replace('}', '}}')
            else:
                spec = ''
                if v.format_spec is not None:
                    if not all(isinstance(x, ast.Constant)
                               for x in v.format_spec.values):
                        return j
                    spec = ':' + ''.join(x.value
                                         for x in v.format_spec.values)
                conv = '' if v.conversion == -1 else '!' + chr(v.conversion)
                text += '{' + conv + spec + '}'
                args.append(v.value)
        return ast.Call(ast.Attribute(ast.Constant(text), 'format',
                                      ast.Load()), args, [])


class SumCall(T):
    """a + b + c of numbers becomes sum((a, b, c)) (compensated in 3.12)."""
    def visit_BinOp(self, b):
        parts, x = [], b
        while isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add):
            parts.insert(0, x.right)
            x = x.left
        parts.insert(0, x)
        if len(parts) < 3 or any(isinstance(
                y, (ast.JoinedStr, ast.List, ast.ListComp, ast.Tuple))
                or isinstance(y, ast.Constant) and isinstance(y.value, str)
                for y in ast.walk(b)) or any(
                    w in ast.unparse(b) for w in ('code', 'sep', 'fmt',
                                                  'colorama')):
            return self.generic_visit(b)
        return ast.Call(ast.Name('sum', ast.Load()), [ast.Tuple(
            [self.visit(q) for q in parts], ast.Load())], [])


KINDS = {k.__name__: k for k in (
    Unparse, Noop, ReturnTemp, InvertIf, FlipCompare, DeMorgan, ForWhile,
    CompLoop, RenameLocals, ReorderMethods, ExtractHelper, ExtractFunc,
    ConstNames, RenamePrivate, AugAssign, NestGuard, ArgTemp, StripDocs,
    Reassoc, Inline, SplitIf, IfExpAssign, FStr, SumCall)}


def sources(root):
    for d, _, fs in os.walk(os.path.join(root, 'pysim')):
        for f in fs:
            if f.endswith('.py'):
                yield os.path.join(d, f)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('kinds', nargs='*')
    ap.add_argument('--checks', nargs='*')
    ap.add_argument('--keep')
    o = ap.parse_args()
    bad = 0
    for kind in o.kinds or KINDS:
        root = o.keep or f'/tmp/refactor/{kind}'
        shutil.rmtree(root, ignore_errors=True)
        os.makedirs(root)
        repo, verif = root + '/repo', root + '/verif'
        subprocess.run(['cp', '-a', REPO, repo], check=True)
        subprocess.run(['cp', '-a', VERIF, verif], check=True)
        trees = {p: ast.parse(open(p, encoding='utf-8').read())
                 for p in sources(repo)}
        private, fields = set(), set()
        for t in trees.values():
            for x in ast.walk(t):
                if isinstance(x, ast.ClassDef):
                    for s in x.body:
                        if isinstance(s, ast.AnnAssign):
                            fields.add(ast.unparse(s.target))
                n = x.attr if isinstance(x, ast.Attribute) \
                    and isinstance(x.ctx, ast.Store) \
                    else getattr(x, 'name', None) \
                    if isinstance(x, (ast.FunctionDef, ast.ClassDef)) \
                    else x.id if isinstance(x, ast.Name) \
                    and isinstance(x.ctx, ast.Store) else None
                if n and n.startswith('_') and not n.startswith('__') \
                        and n != '_':
                    private.add(n)
        info = {'private': private - fields}
        for p, t in trees.items():
            if kind == 'ExtractHelper' and p.endswith('sim/logger.py'):
                continue    # records name the caller: a frame more matters
            t = ast.fix_missing_locations(KINDS[kind](t, info).visit(t))
            open(p, 'w', encoding='utf-8').write(ast.unparse(t) + '\n')
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
                   VERIF_REPO=repo, VERIF_SEED='1', VERIF_TIER='quick')
        r = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                            '--continue-on-collection-errors', 'tests'],
                           cwd=repo, env=env, capture_output=True, text=True)
        print(kind, 'tests:', r.stdout.strip().splitlines()[-1], flush=True)
        for c in o.checks or [f'C{i:02}' for i in range(1, 37)]:
            r = subprocess.run([PY, 'run.py', 'check', c, '--tier', 'quick'],
                               cwd=verif, env=env, capture_output=True,
                               text=True)
            if r.returncode:
                bad += 1
                print(kind, c, 'exit', r.returncode,
                      (r.stdout + r.stderr)[-1500:], flush=True)
        print(kind, 'done', flush=True)
        if not o.keep:
            shutil.rmtree(root, ignore_errors=True)
    return bad


if __name__ == '__main__':
    sys.exit(1 if main() else 0)
