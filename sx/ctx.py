"""
The two contexts a harness runs in.  `SymCtx`: inputs are symbolic, the code under test is the instrumented copy, a
check is a solver query.  `ConcCtx`: inputs come from a model (or a replay file), the code under test is the real
package, a check is evaluated.
"""
import contextlib
import argparse
import math

import z3

from . import core, conc, orders, sched
from .core import (Sym, SymBool, Spec, Fresh, NONE, BOOL, INT, FLOAT, STR, LIST, DICT, TUPLE, SET, NS, CONST0, KNAMES,
                   PYTYPE, SAMPLE)


class Failed(Exception):
    """A check failed in a concrete run."""


class Skip(BaseException):
    """An assumption does not hold in a concrete run."""


def reordered(S, f):
    chosen = S.__dict__.setdefault('orders_chosen', {})     # in one run of a program the same content has the same order

    def hook(items):
        k = ', '.join(getattr(x, '__name__', None) or repr(x) for x in items)
        if k not in chosen:
            chosen[k] = S.choose('order of ' + k, orders.permutations(len(items)))
        return [items[i] for i in chosen[k]]
    orders.HOOK = hook
    try:
        return f()
    finally:
        orders.HOOK = None


class SymCtx:
    symbolic = True

    def __init__(self, ex, tl):
        self.ex = ex
        self.tl = tl
        self.reached = 0
        self.failed = None

    def pool(self, strs=(), nums=()):
        ex = self.ex
        for s in strs:
            if s not in ex.pool_str:
                ex.pool_str.append(s)
        for n in nums:
            if n not in ex.pool_num and n == n and abs(n) != float('inf'):
                ex.pool_num.append(n)

    def any(self, name, spec):
        assert name not in self.ex.roots, name
        self.constpool(spec)
        s = Sym(name, spec)
        self.ex.roots[name] = s
        return s

    def constpool(self, spec):
        """constants that can equal a symbolic scalar have to be told apart from it in sets and dictionaries"""
        for sp in (spec.elem, spec.key):
            if sp is not None:
                for c in sp.consts:
                    if isinstance(c, str):
                        self.pool((str(c),))
                    elif isinstance(c, (int, float)) and abs(c) < 2 ** 53:
                        self.pool((), (float(c) if isinstance(c, float) else int(c),))

    def flag(self, name):
        b = SymBool(z3.Bool(name))
        self.ex.roots[name] = b
        return b

    def choose(self, name, options):
        options = list(options)
        assert name not in self.ex.choices, name
        if len(options) > 1:
            v = z3.Int('choose.' + name)
            self.ex.assume(z3.And(v >= 0, v < len(options)))
            for i in range(len(options) - 1):
                if self.ex.branch(v == i):
                    break
            else:
                i = len(options) - 1
        else:
            i = 0
        self.ex.choices[name] = i
        return options[i]

    def interleave(self, fa, fb, limit=1, touched=False):
        """runs fa and fb with at most `limit` interruptions at symbolic places; both results"""
        def switch(k, n, where):
            v = z3.Int('interruption%d' % k)
            if self.ex.branch(v == n):
                self.ex.choices['interruption%d' % k] = n
                self.record('interruption%d' % k, where)
                return True
            return False
        return sched.Pair(fa, fb, switch, limit, touched).run()

    def orders(self, f):
        """runs f with sets iterated in symbolic orders"""
        return reordered(self, f)

    def assume(self, cond):
        if cond is True:
            return
        self.ex.assume(core.bterm(cond))

    def check(self, cond, msg):
        self.reached += 1
        ex = self.ex
        ex.stats['obligations'] += 1
        if cond is True:
            # decided by the branches of the path condition
            ex.stats['trivial'] += 1
            ex.stats['discharged'] += 1
            return
        t = core.bterm(cond)
        ok, model = ex.valid(t)
        if ok:
            ex.stats['discharged'] += 1
        elif ok is False:
            if msg is not None and callable(msg):
                msg = msg()
            self.failed = (str(msg), model)
            ex.abort(core.Violation(str(msg)))

    def fail(self, msg):
        self.check(False, msg)

    def record(self, label, obj):
        self.ex.records.append((label, obj))

    def plain(self, x):
        return x

    def resolution(self, q):
        """floats are multiples of 1/q"""
        core.resolution(q)

    def symtext(self):
        """render symbolic values as symbolic text"""
        self.ex.symbolic_text = True

    def token(self, x):
        return '<' + x._sx_name + '>' if type(x) is Sym else x

    @contextlib.contextmanager
    def tokens(self):
        """symbolic parts of composed text become tokens"""
        self.ex.token_text = True
        try:
            yield
        finally:
            self.ex.token_text = False


class ConcCtx:
    symbolic = False

    def __init__(self, inputs, tl):
        self.inputs = inputs
        self.tl = tl
        self.records = []
        self.reached = 0

    def pool(self, strs=(), nums=()):
        pass

    def any(self, name, spec):
        return decode(self.inputs['roots'][name], spec) if name in self.inputs['roots'] else decode(None, spec)

    def flag(self, name):
        return bool(self.inputs['roots'].get(name, False))

    def choose(self, name, options):
        return list(options)[self.inputs['choices'].get(name, 0)]

    def interleave(self, fa, fb, limit=1, touched=False):
        def switch(k, n, where):
            if self.inputs['choices'].get('interruption%d' % k) == n:
                self.record('interruption%d' % k, where)
                return True
            return False
        return sched.Pair(fa, fb, switch, limit, touched).run()

    def orders(self, f):
        return reordered(self, f)

    def assume(self, cond):
        if not cond:
            raise Skip()

    def check(self, cond, msg):
        self.reached += 1
        if not cond:
            raise Failed(msg() if callable(msg) else msg)

    def fail(self, msg):
        self.check(False, msg)

    def record(self, label, obj):
        self.records.append((label, obj))

    def plain(self, x):
        return x

    def resolution(self, q):
        """floats are multiples of 1/q"""
        core.resolution(q)

    def symtext(self):
        pass

    def token(self, x):
        return x

    @contextlib.contextmanager
    def tokens(self):
        yield


# ---------------------------------------------------------------- encoding of inputs
class Unencodable(Exception):
    pass


def encode(s, model):
    """JSON form of a symbolic input under a model"""
    if type(s) is SymBool:
        return z3.is_true(model.eval(s.t, model_completion=True))
    k = conc.pick_kind(s, model)
    if k >= CONST0:
        return ['const', k - CONST0]
    if k in (LIST, TUPLE, SET):
        return [KNAMES[k], [encode(i, model) for i in (s._sx_orig or [])]]
    if k in (DICT, NS):
        return [KNAMES[k], [[encode(a, model) if type(a) is Sym else ['str', a], encode(b, model)]
                            for a, b in (s._sx_orig or [])]]
    v = conc.concretize(s, model)
    if v is conc.OPAQUE:
        raise Unencodable()
    if k == INT:
        return ['int', str(v)]
    if k == FLOAT:
        return ['float', repr(v)]
    return [KNAMES[k], v]


def decode(e, spec):
    if e is None:
        k = spec.kinds[0] if spec.kinds else CONST0
        if k >= CONST0:
            e = ['const', 0]
        else:
            return {INT: 7, STR: 'x', LIST: [], DICT: {}, SET: set()}.get(k, SAMPLE[k])
    k, v = e[0], e[1]
    if k == 'const':
        c = spec.consts[v]
        return c.make() if type(c) is Fresh else c
    if k in ('list', 'tuple', 'set'):
        ch = spec.child()
        return {'list': list, 'tuple': tuple, 'set': set}[k](decode(i, ch) for i in v)
    if k in ('dict', 'ns'):
        ch, ks = spec.child(), spec.keyspec()
        d = {decode(a, ks): decode(b, ch) for a, b in v}
        return argparse.Namespace(**d) if k == 'ns' else d
    if k == 'int':
        return int(v) if len(v) < 4000 else int(v[:4000])
    if k == 'float':
        return float(v)
    if k == 'none':
        return None
    return v


def show(e):
    """short rendering of an encoded input"""
    if isinstance(e, bool):
        return repr(e)
    k, v = e[0], e[1]
    if k == 'const':
        return 'const#%d' % v
    if k == 'list':
        return '[' + ', '.join(show(i) for i in v) + ']'
    if k == 'tuple':
        return '(' + ', '.join(show(i) for i in v) + ',)'
    if k == 'set':
        return '{' + ', '.join(show(i) for i in v) + '}' if v else 'set()'
    if k == 'dict':
        return '{' + ', '.join('%s: %s' % (show(a), show(b)) for a, b in v) + '}'
    if k == 'ns':
        return 'Namespace(' + ', '.join('%s=%s' % (a[1], show(b)) for a, b in v) + ')'
    if k == 'int':
        return v if len(v) < 40 else '%s...(%d digits)' % (v[:5], len(v))
    if k == 'float':
        return v
    return repr(v)
