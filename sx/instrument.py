"""
Loads Python source under a different package name with every call, identity test, `%` and f-string routed through
the hooks in models.py, so that symbolic values can flow through the unchanged logic of the code.
"""
import ast
import importlib.abc
import importlib.util
import os
import sys

from . import models, orders, sched

HOOK = '__sx__'
ENTERED = set()


class Hooks:
    call = staticmethod(models.call)
    callkw = staticmethod(models.callkw)
    is_ = staticmethod(models.is_)
    isnot = staticmethod(models.isnot)
    mod = staticmethod(models.mod)
    fstring = staticmethod(models.m_fstring)
    typefn = staticmethod(models.m_type)
    enter = staticmethod(ENTERED.add)
    step = staticmethod(sched.step)
    order = staticmethod(orders.order)
    pop = staticmethod(orders.pop)


def hook(name):
    return ast.Attribute(value=ast.Name(id=HOOK, ctx=ast.Load()), attr=name, ctx=ast.Load())


class Transformer(ast.NodeTransformer):
    def __init__(self, modname, rename):
        self.modname = modname
        self.rename = rename
        self.scope = []

    def visit_FunctionDef(self, node):
        self.scope.append(node.name)
        node = self.generic_visit(node)
        q = self.modname + ':' + '.'.join(self.scope)
        self.scope.pop()
        enter = ast.Expr(ast.Call(func=hook('enter'), args=[ast.Constant(q)], keywords=[]))
        i = 1 if node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
        node.body.insert(i, enter)
        return node

    def visit_ClassDef(self, node):
        self.scope.append(node.name)
        node = self.generic_visit(node)
        self.scope.pop()
        return node

    def visit_Call(self, node):
        if isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name) and node.func.value.id == HOOK:
            node.args = [self.visit(a) for a in node.args]
            return node
        if isinstance(node.func, ast.Name) and node.func.id in ('super', 'locals', 'globals', 'vars', 'eval', 'exec'):
            if not (node.args and node.func.id == 'super') or True:
                node.args = [self.visit(a) for a in node.args]
                return node
        node = self.generic_visit(node)
        if any(k.arg is None for k in node.keywords):
            parts = []
            for k in node.keywords:
                if k.arg is None:
                    parts.append(k.value)
                else:
                    parts.append(ast.Tuple(elts=[ast.Constant(k.arg), k.value], ctx=ast.Load()))
            return ast.Call(func=hook('callkw'), args=[node.func, ast.List(elts=node.args, ctx=ast.Load()),
                                                       ast.List(elts=parts, ctx=ast.Load())], keywords=[])
        return ast.Call(func=hook('call'), args=[node.func] + node.args, keywords=node.keywords)

    def visit_Compare(self, node):
        node = self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            n = 'is_' if isinstance(node.ops[0], ast.Is) else 'isnot'
            return ast.Call(func=hook(n), args=[node.left, node.comparators[0]], keywords=[])
        return node

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.Call(func=hook('mod'), args=[node.left, node.right], keywords=[])
        return node

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = v.format_spec
                if spec is None:
                    spec = ast.Constant('')
                else:
                    spec = self.visit(spec)
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return ast.Call(func=hook('fstring'), args=parts, keywords=[])

    def visit_FormattedValue(self, node):
        return self.generic_visit(node)

    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module:
            for a, b in self.rename.items():
                if node.module == a or node.module.startswith(a + '.'):
                    node.module = b + node.module[len(a):]
        return node

    def visit_Import(self, node):
        for al in node.names:
            for a, b in self.rename.items():
                if al.name == a and al.asname is None:
                    al.asname = a
                if al.name == a or al.name.startswith(a + '.'):
                    al.name = b + al.name[len(a):]
        return node

    def visit_AnnAssign(self, node):
        # annotations stay untouched
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_arg(self, node):
        return node

    def visit_Constant(self, node):
        return node


class Rename(ast.NodeTransformer):
    """only the names of the packages are changed"""
    def __init__(self, modname, rename):
        self.rename = rename

    visit_ImportFrom = Transformer.visit_ImportFrom
    visit_Import = Transformer.visit_Import


class Loader(importlib.abc.Loader):
    def __init__(self, path, rename, steps=False, orders=False, symbolic=True):
        self.path = path
        self.rename = rename
        self.steps = steps
        self.orders = orders
        self.symbolic = symbolic

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, 'rb') as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        if self.orders:
            tree = orders.Orders(hook).visit(tree)
        if self.steps:
            tree = sched.Steps(lambda: hook('step')).visit(tree)
        if self.symbolic:
            tree = Transformer(module.__name__, self.rename).visit(tree)
        else:
            tree = Rename(module.__name__, self.rename).visit(tree)
        ast.fix_missing_locations(tree)
        module.__dict__[HOOK] = Hooks
        exec(compile(tree, self.path, 'exec', dont_inherit=True), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    """Serves package `alias` from directory `root`, instrumented."""
    def __init__(self, alias, root, rename, **how):
        self.alias, self.root, self.rename, self.how = alias, root, rename, how

    def find_spec(self, name, path=None, target=None):
        if name != self.alias and not name.startswith(self.alias + '.'):
            return None
        rel = name[len(self.alias):].lstrip('.').replace('.', '/')
        base = os.path.join(self.root, rel) if rel else self.root
        if os.path.isdir(base):
            p = os.path.join(base, '__init__.py')
            if not os.path.exists(p):
                return importlib.util.spec_from_loader(name, None, is_package=True)
            s = importlib.util.spec_from_file_location(name, p, loader=Loader(p, self.rename, **self.how),
                                                       submodule_search_locations=[base])
            return s
        p = base + '.py'
        if os.path.exists(p):
            return importlib.util.spec_from_file_location(name, p, loader=Loader(p, self.rename, **self.how))
        return None


def install(alias, root, rename, **how):
    sys.meta_path.insert(0, Finder(alias, root, rename, **how))
