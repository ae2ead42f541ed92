#!/usr/bin/env python3
"""
Mutation testing of the checks.
  mutants.py survivors DIR [FILE...]      mutants of /repo that pass the existing tests -> DIR/<n>/{file, what}
  mutants.py check DIR PROPS [n...]       which of the checks notice them -> DIR/results.json
"""
import ast, copy, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
FILES = ['dataloader.py', 'datadumper.py', 'exceptions.py', 'typechecks.py', 'helpers.py', '__init__.py']
SWAP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def candidates(tree):
    """(description, function that changes a deep copy at node number i)"""
    nodes = list(ast.walk(tree))
    docs = {id(n.body[0]) for n in nodes if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant)}
    anns = {id(x) for n in nodes for f in ('annotation', 'returns') if getattr(n, f, None) is not None for x in ast.walk(getattr(n, f))}
    raises = {id(x) for n in nodes if isinstance(n, ast.Raise) and n.exc is not None for x in ast.walk(n.exc)}
    for i, n in enumerate(nodes):
        if id(n) in docs or id(n) in anns:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            yield i, 'compare', lambda m: m.ops.__setitem__(0, SWAP[type(m.ops[0])]())
            if isinstance(n.ops[0], (ast.Eq, ast.NotEq)):
                yield i, 'identity', lambda m: m.ops.__setitem__(0, ast.Is() if isinstance(m.ops[0], ast.Eq) else ast.IsNot())
            if isinstance(n.ops[0], (ast.Is, ast.IsNot)):
                yield i, 'equality', lambda m: m.ops.__setitem__(0, ast.Eq() if isinstance(m.ops[0], ast.Is) else ast.NotEq())
        if isinstance(n, ast.BoolOp):
            yield i, 'and/or', lambda m: setattr(m, 'op', ast.Or() if isinstance(m.op, ast.And) else ast.And())
            for k in range(len(n.values)):
                if len(n.values) > 1:
                    yield i, 'drop operand %d' % k, lambda m, k=k: m.values.pop(k)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            yield i, 'not', lambda m: setattr(m, 'op', ast.UAdd()) or setattr(m, '__class__', m.__class__)
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            yield i, 'condition true', lambda m: setattr(m, 'test', ast.Constant(True))
            yield i, 'condition false', lambda m: setattr(m, 'test', ast.Constant(False))
        if isinstance(n, ast.comprehension) and n.ifs:
            yield i, 'no filter', lambda m: m.ifs.clear()
        if isinstance(n, ast.Constant) and type(n.value) is int and id(n) not in raises:
            yield i, 'constant+1', lambda m: setattr(m, 'value', m.value + 1)
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            yield i, 'flip', lambda m: setattr(m, 'value', not m.value)
        if isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Tuple):
            for k in range(len(n.type.elts)):
                yield i, 'do not catch %d' % k, lambda m, k=k: m.type.elts.pop(k)
        if isinstance(n, ast.Try) and len(n.handlers) > 1:
            for k in range(len(n.handlers)):
                yield i, 'handler %d' % k, lambda m, k=k: m.handlers.pop(k)
        if isinstance(n, (ast.FunctionDef, ast.If, ast.For, ast.While, ast.Try, ast.With, ast.ExceptHandler)):
            for f in ('body', 'orelse', 'finalbody'):
                for k, s in enumerate(getattr(n, f, ())):
                    if id(s) in docs or isinstance(s, (ast.Import, ast.ImportFrom)):
                        continue
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Continue, ast.Break)) or isinstance(s, ast.Return) and isinstance(n, ast.If):
                        yield i, 'delete %s %d: %s' % (f, k, ast.unparse(s)[:60]), lambda m, f=f, k=k: getattr(m, f).__setitem__(k, ast.Pass())
        if isinstance(n, ast.Call) and len(n.args) == 1 and isinstance(n.func, ast.Name) and n.func.id in ('list', 'dict', 'set', 'tuple', 'str', 'repr', 'tname', 'printable'):
            yield i, 'no call ' + n.func.id, lambda m: setattr(m, 'func', ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg('x')], kwonlyargs=[], kw_defaults=[], defaults=[]), body=ast.Name('x', ast.Load())))
        if isinstance(n, ast.Call) and n.keywords and id(n) in raises:
            for k, w in enumerate(n.keywords):
                yield i, 'no keyword %s' % w.arg, lambda m, k=k: m.keywords.pop(k)


def mutants(f):
    src = open(os.path.join(REPO, 'typedload', f)).read()
    tree = ast.parse(src)
    for i, what, change in candidates(tree):
        t = copy.deepcopy(tree)
        n = list(ast.walk(t))[i]
        if what == 'not':
            class N(ast.NodeTransformer):
                def visit(self, x):
                    return self.generic_visit(x) if x is not n else n.operand
            t = N().visit(t)
        else:
            change(n)
        yield '%s:%d %s' % (f, getattr(n, 'lineno', 0), what), ast.unparse(ast.fix_missing_locations(t))


def survives(job):
    d, k, f, what, code = job
    tmp = tempfile.mkdtemp(prefix='mut-')
    try:
        shutil.copytree(REPO + '/typedload', tmp + '/typedload')
        shutil.copytree(REPO + '/tests', tmp + '/tests')
        for x in ('example.py', 'README.md'):
            if os.path.exists(os.path.join(REPO, x)):
                shutil.copy(os.path.join(REPO, x), tmp)
        open(tmp + '/typedload/' + f, 'w').write(code)
        try:
            r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=tmp, capture_output=True, timeout=60,
                               env=dict(os.environ, PYTHONPATH=tmp, PYTHONDONTWRITEBYTECODE='1', PYTEST_DISABLE_PLUGIN_AUTOLOAD='1'))
        except subprocess.TimeoutExpired:
            return None
        if r.returncode:
            return None
        os.makedirs('%s/%d' % (d, k))
        open('%s/%d/%s' % (d, k, f), 'w').write(code)
        open('%s/%d/what' % (d, k), 'w').write(what)
        return k
    finally:
        shutil.rmtree(tmp)


def survivors(d, files):
    jobs, seen = [], set()
    for f in files or FILES:
        base = ast.unparse(ast.parse(open(os.path.join(REPO, 'typedload', f)).read()))
        for what, code in mutants(f):
            if code == base or code in seen:
                continue
            seen.add(code)
            jobs.append((d, len(jobs), f, what, code))
    print(len(jobs), 'mutants', flush=True)
    with ThreadPoolExecutor(4) as p:
        r = [x for x in p.map(survives, jobs) if x is not None]
    print(len(r), 'pass the tests')


WHERE = {   # checks to try for a function
    'dataloader.py': {
        '__init__': 'C25 C20 C23', 'index': 'C20 C16', 'load': 'C20 C16 C18 C19', '_forwardrefload': 'C19 C18', '_basicload': 'C02 C03 C04 C18', '_dictload': 'C06 C02 C18 C16 C20', '_tupleload': 'C05 C02 C18 C20',
        '_iterload': 'C05 C02 C18 C20', '_mangle_names': 'C08 C18', '_dataclassload': 'C08 C07 C02 C18 C28 C24', '_dictequivalence': 'C24', '_objloader': 'C07 C02 C18 C20 C24', '_namedtupleload': 'C07 C28', '_typeddictload': 'C07 C28 C17',
        '_unionload': 'C10 C09 C11 C18 C20 C16', '_enumload': 'C12 C18 C21 C02', '_noneload': 'C03 C18', '_datetimeload': 'C22 C18 C02', '_timedeltaload': 'C22 C18', '_patternload': 'C23 C18', '_literalload': 'C12 C18 C02',
        '_attrload': 'C08 C07 C18 C24', '_strconstructload': 'C23 C18', '_newtypeload': 'C03 C18 C16', '_anyload': 'C01', '_iterload.<lambda>': 'C05'},
    'datadumper.py': {'__init__': 'C25 C20', 'index': 'C20', 'dump': 'C20 C14 C16', '_attrdump': 'C15 C14 C08', '_dataclassdump': 'C15 C14 C08 C16', '_namedtupledump': 'C15 C14', '_datetimedump': 'C22', '_iteratordump': 'C14 C20 C17'},
    'exceptions.py': {}, 'typechecks.py': {}, 'helpers.py': {}, '__init__.py': {},
}
REST = {'dataloader.py': 'C18 C02 C16 C20 C07 C21 C23', 'datadumper.py': 'C14 C15 C13 C22 C20 C16 C23', 'exceptions.py': 'C21 C18', 'typechecks.py': 'C01 C02 C07 C10 C12 C23 C14 C28', 'helpers.py': 'C18 C21 C02', '__init__.py': 'C25'}


def relevant(what):
    f, line = what.split(' ')[0].split(':')
    tree = ast.parse(open(os.path.join(REPO, 'typedload', f)).read())
    names = [n.name for n in ast.walk(tree) if isinstance(n, ast.FunctionDef) and n.lineno <= int(line) <= n.end_lineno]
    r = []
    for n in names:
        r += WHERE[f].get(n, '').split()
    r += REST[f].split()
    return list(dict.fromkeys(r))


def check(d, props, ids):
    res = {}
    out = d + '/results.json'
    if os.path.exists(out):
        res = json.load(open(out))
    for k in ids or sorted((x for x in os.listdir(d) if x.isdigit()), key=int):
        what = open('%s/%s/what' % (d, k)).read()
        r = res.setdefault(k, dict(what=what))
        if 1 in r.values() and not ids:
            continue
        tmp = tempfile.mkdtemp(prefix='mut-')
        try:
            shutil.copytree(REPO + '/typedload', tmp + '/typedload')
            for f in os.listdir('%s/%s' % (d, k)):
                if f.endswith('.py'):
                    shutil.copy('%s/%s/%s' % (d, k, f), tmp + '/typedload/' + f)
            for p in props if props != ['auto'] else relevant(what):
                if p in r:
                    continue
                t = time.time()
                x = subprocess.run(['python3-vt', 'run.py', 'check', p, '--first'], cwd=V, text=True, capture_output=True, env=dict(os.environ, TYPEDLOAD_REPO=tmp, VERIF_TIER='quick'))
                r[p] = x.returncode
                print(k, what, p, x.returncode, '%.0fs' % (time.time() - t), flush=True)
                json.dump(res, open(out, 'w'), indent=1)
                if x.returncode == 1:
                    break
        finally:
            shutil.rmtree(tmp)


if __name__ == '__main__':
    if sys.argv[1] == 'survivors':
        os.makedirs(sys.argv[2], exist_ok=True)
        survivors(sys.argv[2], sys.argv[3:])
    else:
        check(sys.argv[2], sys.argv[3].split(','), sys.argv[4:])
