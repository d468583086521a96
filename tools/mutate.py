"""Mutation sweep: small syntactic changes of the code, one at a time, each in
a scratch copy; which of them does no check notice?

    python tools/mutate.py OUT.jsonl [--files F ...] [--sample N] [--seed S]
                           [--jobs J] [--ops op,op] [--family 1|2|3]

Not used by any registered check.
"""
import argparse
import ast
import difflib
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

REPO, VERIF = '/repo', '/verif'
PY = '/opt/venv/bin/python'
M = 'pysim/models/'
CHECKS = {
    'pysim/sim/simulator.py': 'C06 C02 C01 C03 C04 C05 C34',
    'pysim/sim/logger.py': 'C07',
    M + 'pingpong/': 'C08 C09/pingpong C33 C34 C36/ping-pong',
    M + 'tag_time/model.py': 'C10 C36/reading', M + 'tag_time/handlers.py': 'C10',
    M + 'tag_time/objects.py': 'C10',
    M + 'tag_time/analitical_model.py': 'C11 C32', M + 'tag_time/mc.py': 'C12 C32',
    M + 'tag_time/calculate_params.py': 'C13 C32',
    M + 'tag_time/processing.py': 'C09/tag_time C10 C33', M + 'tag_time/cli.py': 'C09/tag_time C10 C33 C34',
    M + 'rfid/epcstd.py': 'C14 C15 C16 C17 C18 C19 C20 C25 C29 C36/texts',
    M + 'rfid/objects.py': 'C17 C18 C19 C26 C20 C25 C29 C21 C24 C31 C23 C27 C30 C35 C36/rfid',
    M + 'rfid/handlers.py': 'C25 C21 C24 C29 C31 C26 C23 C20 C30 C35 C36/rfid',
    M + 'rfid/channel.py': 'C22 C23',
    M + 'rfid/configurator.py': 'C27 C34 C09/rfid C33 C30',
    M + 'rfid/cli.py': 'C09/rfid C27 C34', M + 'rfid/processing.py': 'C33 C09/rfid',
    'pysim/main.py': 'C28 C34',
}
BY_CLASS = {
    'Tag': 'C17 C18 C19', 'Generator': 'C26 C35', 'Medium': 'C23 C31',
    'Transaction': 'C25 C29', 'Statistics': 'C24', '_TagRecord': 'C24 C23',
    '_TagPowerRecord': 'C23', '_TagReadRecord': 'C24', 'Listeners': 'C20',
    '_TagPowerMinMap': 'C23', 'Antenna': 'C31 C23', 'Model': 'C27',
}
SWAP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>',
        ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is',
        ast.In: 'not in', ast.NotIn: 'in'}
ARITH = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
         ast.FloorDiv: '/', ast.Mod: '//', ast.Pow: '*'}


def mutants(path):
    src = open(os.path.join(REPO, path), encoding='utf-8').read()
    tree = ast.parse(src)
    lines = src.split('\n')
    starts = [0]
    raw = src.encode()
    for line in lines:
        starts.append(starts[-1] + len(line.encode()) + 1)

    def off(ln, col):
        return starts[ln - 1] + col

    def seg(node):
        return raw[off(node.lineno, node.col_offset):
                   off(node.end_lineno, node.end_col_offset)].decode()

    out = []

    def put(node, new, op, scope):
        a = off(node.lineno, node.col_offset)
        b = off(node.end_lineno, node.end_col_offset)
        text = (raw[:a] + new.encode() + raw[b:]).decode()
        out.append({'file': path, 'line': node.lineno, 'op': op,
                    'old': seg(node), 'new': new, 'scope': scope,
                    'text': text})

    def noise(node):
        s = ast.unparse(node)
        return any(w in s for w in ('logger.', 'print(', '__str__', 'raise '))

    def walk(node, scope, infunc):
        for child in ast.iter_child_nodes(node):
            sc, fn = scope, infunc
            if isinstance(child, (ast.ClassDef, ast.FunctionDef)):
                sc = scope + [child.name]
                fn = infunc or isinstance(child, ast.FunctionDef)
                if child.name in ('__str__', 'describe', 'to_long_string',
                                  'print_model_settings'):
                    continue
            if isinstance(child, ast.Expr) and isinstance(
                    child.value, ast.Constant):
                continue
            if isinstance(child, (ast.Import, ast.ImportFrom, ast.Assert,
                                  ast.Raise)):
                continue
            if isinstance(child, ast.If) and 'main' in ast.unparse(
                    child.test) and not fn:
                continue
            if fn and isinstance(child, (ast.Expr, ast.Assign, ast.AugAssign,
                                         ast.Delete)):
                if noise(child):
                    continue
                put(child, 'pass', 'delete', sc)
            if isinstance(child, ast.Call) and noise(child) and (
                    'logger.' in ast.unparse(child.func) or
                    ast.unparse(child.func) == 'print'):
                continue
            if isinstance(child, (ast.If, ast.While, ast.IfExp)):
                put(child.test, f'(not ({seg(child.test)}))', 'negate', sc)
            if isinstance(child, ast.Compare) and len(child.ops) == 1:
                l, r = seg(child.left), seg(child.comparators[0])
                put(child, f'{l} {SWAP[type(child.ops[0])]} {r}', 'compare', sc)
            if isinstance(child, ast.BoolOp):
                word = ' or ' if isinstance(child.op, ast.And) else ' and '
                put(child, '(' + word.join(f'({seg(v)})' for v in child.values)
                    + ')', 'bool', sc)
                for i in range(len(child.values)):
                    rest = child.values[:i] + child.values[i + 1:]
                    w = ' and ' if isinstance(child.op, ast.And) else ' or '
                    put(child, '(' + w.join(f'({seg(v)})' for v in rest) + ')',
                        'drop', sc)
            if isinstance(child, ast.BinOp) and type(child.op) in ARITH:
                if not (isinstance(child.left, ast.Constant) and
                        isinstance(child.left.value, str)):
                    put(child, f'({seg(child.left)} {ARITH[type(child.op)]} '
                        f'{seg(child.right)})', 'arith', sc)
            if isinstance(child, ast.UnaryOp) and isinstance(
                    child.op, (ast.USub, ast.Not)):
                put(child, f'({seg(child.operand)})', 'unary', sc)
            if isinstance(child, ast.Constant):
                v = child.value
                if isinstance(v, bool):
                    put(child, str(not v), 'const', sc)
                elif isinstance(v, int):
                    put(child, str(v + 1), 'const', sc)
                elif isinstance(v, float):
                    put(child, repr(v * 1.1 + 1e-9 * (v == 0)), 'const', sc)
                elif v is None and not isinstance(node, ast.arguments):
                    pass
            if isinstance(child, ast.Return) and child.value is not None:
                put(child, 'return None', 'return', sc)
            walk(child, sc, fn)
    walk(tree, [], False)
    return [m for m in out if m['new'] != m['old']]


def mutants2(path):
    """A second family: mistakes that read well - a neighbour's name, a value
    for a truth, a copy not taken, arguments or statements in another order."""
    src = open(os.path.join(REPO, path), encoding='utf-8').read()
    tree = ast.parse(src)
    raw = src.encode()
    starts = [0]
    for line in src.split('\n'):
        starts.append(starts[-1] + len(line.encode()) + 1)

    def span(node):
        return (starts[node.lineno - 1] + node.col_offset,
                starts[node.end_lineno - 1] + node.end_col_offset)

    def seg(node):
        a, b = span(node)
        return raw[a:b].decode()

    out = []

    def put(node, new, op, scope, end=None):
        a, b = span(node)
        if end is not None:
            b = span(end)[1]
        out.append({'file': path, 'line': node.lineno, 'op': op,
                    'old': raw[a:b].decode(), 'new': new, 'scope': scope,
                    'text': (raw[:a] + new.encode() + raw[b:]).decode()})

    def quiet(node):
        s = ast.unparse(node)
        return any(w in s for w in ('logger.', 'print(', 'raise '))

    def linked(x, y):
        def names(n, ctx):
            return {ast.unparse(m) for m in ast.walk(n)
                    if isinstance(m, (ast.Name, ast.Attribute))
                    and isinstance(m.ctx, ctx)}
        if isinstance(x, ast.Expr) and isinstance(y, ast.Expr):
            return True
        both = names(x, ast.Store) & (names(y, ast.Load) | names(y, ast.Store))
        back = names(x, ast.Load) & names(y, ast.Store)
        return bool(both | back) or (
            isinstance(x, ast.Expr) != isinstance(y, ast.Expr))

    def linked(x, y):
        def names(n, ctx):
            return {ast.unparse(m) for m in ast.walk(n)
                    if isinstance(m, (ast.Name, ast.Attribute))
                    and isinstance(m.ctx, ctx)}
        if isinstance(x, ast.Expr) and isinstance(y, ast.Expr):
            return True
        both = names(x, ast.Store) & (names(y, ast.Load) | names(y, ast.Store))
        back = names(x, ast.Load) & names(y, ast.Store)
        return bool(both | back) or (
            isinstance(x, ast.Expr) != isinstance(y, ast.Expr))

    def near(name, names):
        got = [n for n in names if n != name and difflib.SequenceMatcher(
            None, n, name).ratio() > 0.6]
        return sorted(got)[:3]

    def walk(node, scope, attrs, local):
        for field, value in ast.iter_fields(node):
            if isinstance(value, list) and local is not None and value and \
                    isinstance(value[0], ast.stmt):
                for x, y in zip(value, value[1:]):
                    if (x.lineno == x.end_lineno and y.lineno == y.end_lineno
                            and not quiet(x) and not quiet(y)
                            and linked(x, y)
                            and isinstance(x, (ast.Assign, ast.Expr,
                                               ast.AugAssign))
                            and isinstance(y, (ast.Assign, ast.Expr,
                                               ast.AugAssign))):
                        put(x, seg(y) + '\n' + ' ' * x.col_offset + seg(x),
                            'stmtswap', scope, y)
        for child in ast.iter_child_nodes(node):
            sc, at, lo = scope, attrs, local
            if isinstance(child, ast.ClassDef):
                sc = scope + [child.name]
                at = {n.attr for n in ast.walk(child)
                      if isinstance(n, ast.Attribute)
                      and isinstance(n.value, ast.Name)
                      and n.value.id == 'self'}
            if isinstance(child, (ast.FunctionDef, ast.Lambda)):
                if isinstance(child, ast.FunctionDef):
                    sc = scope + [child.name]
                    if child.name in ('__str__', 'print_model_settings'):
                        continue
                lo = {n.arg for n in ast.walk(child)
                      if isinstance(n, ast.arg)} | {
                    n.id for n in ast.walk(child) if isinstance(n, ast.Name)
                    and isinstance(n.ctx, ast.Store)}
                lo -= {'self', '_'}
            if isinstance(child, (ast.Import, ast.ImportFrom, ast.Raise,
                                  ast.Assert)):
                continue
            if isinstance(child, ast.Call) and quiet(child) and (
                    'logger.' in ast.unparse(child.func) or
                    ast.unparse(child.func) == 'print'):
                continue
            if isinstance(child, ast.Compare) and len(child.ops) == 1 and \
                    isinstance(child.comparators[0], ast.Constant) and \
                    child.comparators[0].value is None:
                if isinstance(child.ops[0], ast.IsNot):
                    put(child, f'({seg(child.left)})', 'truthy', sc)
                if isinstance(child.ops[0], ast.Is):
                    put(child, f'(not {seg(child.left)})', 'truthy', sc)
            if isinstance(child, ast.Attribute) and at and isinstance(
                    child.value, ast.Name) and child.value.id == 'self':
                for n in near(child.attr, at):
                    put(child, 'self.' + n, 'attr', sc)
            elif isinstance(child, ast.Attribute):
                base = ast.unparse(child.value)
                sib = {n.attr for n in ast.walk(tree)
                       if isinstance(n, ast.Attribute)
                       and ast.unparse(n.value) == base}
                if base not in ('np', 'math', 'os', 'json', 'random', 'plt'):
                    for n in near(child.attr, sib):
                        put(child, f'{seg(child.value)}.{n}', 'attr', sc)
            if isinstance(child, ast.Name) and isinstance(
                    child.ctx, ast.Load) and lo and child.id in lo:
                for n in near(child.id, lo):
                    put(child, n, 'local', sc)
            if isinstance(child, ast.Call):
                f = ast.unparse(child.func)
                a = child.args
                if f in ('min', 'max'):
                    put(child.func, 'max' if f == 'min' else 'min',
                        'minmax', sc)
                if f in ('list', 'tuple', 'set', 'dict', 'sorted', 'reversed',
                         'np.array', 'np.asarray', 'abs', 'round', 'float',
                         'int', 'str', 'np.ceil', 'math.ceil', 'np.floor',
                         'math.floor', 'np.abs') and a:
                    put(child, f'({seg(a[0])})', 'nocall', sc)
                swaps = {'round': 'int', 'int': 'round', 'math.ceil':
                         'math.floor', 'np.ceil': 'np.floor', 'math.floor':
                         'math.ceil', 'np.floor': 'np.ceil', 'any': 'all',
                         'all': 'any', 'np.sin': 'np.cos', 'np.cos': 'np.sin'}
                if f in swaps:
                    put(child.func, swaps[f], 'callswap', sc)
                if f.endswith('.copy') and not a:
                    put(child, seg(child.func.value), 'nocall', sc)
                if f.endswith(('.append', '.extend')):
                    put(child.func, seg(child.func.value) + (
                        '.extend' if f.endswith('.append') else '.append'),
                        'callswap', sc)
                if len(a) >= 2 and f not in ('isinstance', 'getattr',
                                             'zip', 'setattr', 'hasattr'):
                    put(a[0], seg(a[1]) + ', ' + seg(a[0]), 'argswap', sc,
                        a[1])
                for k in child.keywords:
                    if k.arg and (len(child.keywords) + len(a)) > 1:
                        rest = [seg(x) for x in a] + [
                            seg(x) for x in child.keywords if x is not k]
                        put(child, f'{seg(child.func)}({", ".join(rest)})',
                            'kwdrop', sc)
            if isinstance(child, (ast.Set, ast.Tuple, ast.List)) and \
                    isinstance(getattr(child, 'ctx', ast.Load()), ast.Load) \
                    and len(child.elts) >= 2:
                for x in (child.elts[0], child.elts[-1]):
                    rest = [seg(y) for y in child.elts if y is not x]
                    o, c = {'Set': '{}', 'Tuple': '()', 'List': '[]'}[
                        type(child).__name__]
                    put(child, o + ', '.join(rest) + (
                        ',' if o == '(' else '') + c, 'elem', sc)
            if isinstance(child, ast.Subscript) and isinstance(
                    child.slice, ast.Constant) and child.slice.value == 0:
                put(child.slice, '-1', 'index', sc)
            if isinstance(child, ast.Subscript) and \
                    ast.unparse(child.slice) == '-1':
                put(child.slice, '0', 'index', sc)
            if isinstance(child, ast.Break):
                put(child, 'continue', 'jump', sc)
            if isinstance(child, ast.Continue):
                put(child, 'break', 'jump', sc)
            if isinstance(child, ast.If) and not child.orelse and \
                    lo is not None and len(child.body) >= 1 and \
                    child.body[0].lineno == child.body[0].end_lineno and \
                    child.body[0].lineno > child.lineno and len(child.body) > 1:
                b = child.body
                put(b[-1], 'pass\n' + ' ' * child.col_offset + seg(b[-1]),
                    'outdent', sc)
            if isinstance(child, ast.AugAssign):
                put(child, f'{seg(child.target)} = {seg(child.value)}',
                    'assign', sc)
            walk(child, sc, at, lo)
    walk(tree, [], None, None)
    return [m for m in out if m['new'] != m['old']]

STALE = ("@(lambda f: __import__('functools').wraps(f)(lambda self: "
         "self.__dict__.setdefault('_kept_' + f.__name__, f(self))))\n")
MEMO = ("@(lambda f, c={}: __import__('functools').wraps(f)(lambda *a, **k: "
        "c.setdefault(repr([v for n, v in __import__('inspect').signature(f)"
        ".bind(*a, **k).arguments.items() if n != %r]), f(*a, **k))))\n")
SHARED = "self.__init__.__func__.__dict__.setdefault(%r, %s)"


def mutants3(path):
    """A third family: results kept for too long or for too much, and
    containers shared by the instances of a class."""
    src = open(os.path.join(REPO, path), encoding='utf-8').read()
    tree = ast.parse(src)
    lines = src.split('\n')
    out = []

    def put(line, old, new, op, scope, text):
        out.append({'file': path, 'line': line, 'op': op, 'old': old,
                    'new': new, 'scope': scope, 'text': text})

    def own(f):
        todo = list(f.body)
        while todo:
            n = todo.pop()
            yield n
            if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                todo += ast.iter_child_nodes(n)

    def walk(node, scope, cls):
        for x in ast.iter_child_nodes(node):
            if isinstance(x, ast.ClassDef):
                walk(x, scope + [x.name], x)
            elif isinstance(x, ast.FunctionDef):
                sc = scope + [x.name]
                n = list(own(x))
                if cls and x.name == '__init__':
                    for y in n:
                        if isinstance(y, ast.Assign) and \
                                ast.unparse(y.targets[0])[:5] == 'self.' and \
                                ast.unparse(y.value) in (
                                    '[]', '{}', 'list()', 'dict()', 'set()'):
                            v, t = ast.unparse(y.value), \
                                ast.unparse(y.targets[0])
                            ln = lines[:]
                            ln[y.lineno - 1] = ' ' * y.col_offset + t + \
                                ' = ' + SHARED % (t, v)
                            put(y.lineno, t, 'shared', 'shared', sc,
                                '\n'.join(ln))
                    continue
                if any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in n) \
                        or not any(isinstance(y, ast.Return) and y.value
                                   is not None for y in n) \
                        or x.name.startswith('__') or any(
                            'setter' in ast.unparse(d) or 'click' in
                            ast.unparse(d) or 'command' in ast.unparse(d)
                            for d in x.decorator_list):
                    continue
                args = [a.arg for a in x.args.args + x.args.kwonlyargs]
                pad = ' ' * x.col_offset

                def deco(text, op, what):
                    ln = lines[:]
                    ln.insert(x.lineno - 1, pad + text.rstrip())
                    put(x.lineno, x.name, what, op, sc, '\n'.join(ln))
                if args == ['self']:
                    deco(STALE, 'stale', 'kept')
                for a in [''] + [a for a in args if a not in ('cls',)]:
                    if a == 'self' and len(args) == 1:
                        continue
                    if args != ['self'] or a:
                        deco(MEMO % a, 'memo', 'memo without ' + a)
    walk(tree, [], None)
    return out


def checks_for(m):
    for k, v in CHECKS.items():
        if m['file'].startswith(k):
            rest = v.split()
    first = []
    if m['file'].endswith('objects.py'):
        top = m['scope'][0] if m['scope'] else ''
        first = BY_CLASS.get(top, '').split()
        if not first and top.startswith(('_Reader', 'Reader')):
            first = ['C20', 'C21', 'C25']
    return first + [c for c in rest if c not in first]


def run_one(m, slot):
    base = os.path.join(os.environ.get('MBASE', '/tmp/mut'), str(slot))
    repo, verif = f'{base}/repo', f'{base}/verif'
    if not os.path.exists(repo):
        os.makedirs(base, exist_ok=True)
        shutil.copytree(REPO, repo, ignore=shutil.ignore_patterns('.git'))
        shutil.copytree(VERIF, verif, ignore=shutil.ignore_patterns(
            '.git', 'evidence', 'replays', 'seeded'))
    full = os.path.join(repo, m['file'])
    orig = open(full, encoding='utf-8').read()
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
               VERIF_REPO=repo, VERIF_JOBS=os.environ.get('MJOBS', '3'), VERIF_FIRST='1')
    try:
        open(full, 'w', encoding='utf-8').write(m['text'])
        try:
            ast.parse(m['text'])
        except SyntaxError:
            return 'syntax', ''
        try:
            r = subprocess.run(
                [PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                 '--continue-on-collection-errors', 'tests'], cwd=repo,
                env=env, capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return 'tests', ''
        if '9 passed' not in r.stdout:
            return 'tests', ''
        mod = m['file'][:-3].replace('/', '.')
        r = subprocess.run([PY, '-c', f'import {mod}'], cwd=repo, env=env,
                           capture_output=True, timeout=60)
        if r.returncode:
            return 'import', ''
        done = []
        for c in checks_for(m):
            c, _, part = c.partition('/')
            if not os.path.exists(f'{verif}/props/{c.lower()}.py'):
                continue
            part = ['--part', part] if part else []
            try:
                r = subprocess.run([PY, 'run.py', 'check', c] + part, cwd=verif,
                                   env=env, capture_output=True, text=True,
                                   timeout=900)
            except subprocess.TimeoutExpired:
                done.append(c + ':timeout')
                continue
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                return 'caught', c
            if r.returncode:
                done.append(f'{c}:rc{r.returncode}')
        return 'SURVIVED', ' '.join(done)
    finally:
        open(full, 'w', encoding='utf-8').write(orig)


def main():
    p = argparse.ArgumentParser()
    p.add_argument('out')
    p.add_argument('--files', nargs='*')
    p.add_argument('--sample', type=int)
    p.add_argument('--seed', type=int, default=1)
    p.add_argument('--jobs', type=int, default=4)
    p.add_argument('--ops')
    p.add_argument('--family', type=int, default=1)
    p.add_argument('--count', action='store_true')
    a = p.parse_args()
    files = []
    for root, _, names in os.walk(f'{REPO}/pysim'):
        for n in names:
            f = os.path.relpath(os.path.join(root, n), REPO)
            if n.endswith('.py') and any(f.startswith(k) for k in CHECKS):
                if not a.files or any(x in f for x in a.files):
                    files.append(f)
    family = [mutants, mutants2, mutants3][a.family - 1]
    ms = [m for f in sorted(files) for m in family(f)]
    if a.ops:
        ms = [m for m in ms if m['op'] in a.ops.split(',')]
    seen = set()
    if os.path.exists(a.out):
        for line in open(a.out):
            d = json.loads(line)
            seen.add((d['file'], d['line'], d['old'], d['new']))
    ms = [m for m in ms
          if (m['file'], m['line'], m['old'], m['new']) not in seen]
    random.Random(a.seed).shuffle(ms)
    if a.sample:
        ms = ms[:a.sample]
    print(len(ms), 'mutants')
    if a.count:
        from collections import Counter
        print(Counter(m['file'] for m in ms))
        return
    slots = Queue()
    for i in range(a.jobs):
        slots.put(i)

    def go(m):
        slot = slots.get()
        try:
            res, how = run_one(m, slot)
        except Exception as e:
            res, how = 'error', repr(e)
        finally:
            slots.put(slot)
        d = {k: m[k] for k in ('file', 'line', 'op', 'old', 'new', 'scope')}
        d.update(result=res, by=how)
        with open(a.out, 'a') as f:
            f.write(json.dumps(d, ensure_ascii=False) + '\n')
        if res not in ('caught', 'tests', 'syntax', 'import'):
            print(res, how, f"{m['file']}:{m['line']}", m['op'],
                  repr(m['old'][:70]), '->', repr(m['new'][:70]), flush=True)
    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(go, ms))
    shutil.rmtree(os.environ.get('MBASE', '/tmp/mut'), ignore_errors=True)


main()
