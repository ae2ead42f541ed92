"""
Symbolic execution core.

A path of the program under test is a sequence of events: assumptions and branch decisions over z3 terms.  `Explorer`
enumerates all feasible paths depth-first by re-executing the program; z3 decides the feasibility of every branch and
the validity of every assertion.  `Sym` is a lazily typed symbolic Python value: its kind (None, bool, int, float,
str, list, dict, ...) is a z3 integer that is only decided when the program under test depends on it, its content is
z3 Bool/Int/String terms, children of containers are further `Sym`s.
"""
import argparse
import time

import z3
from z3 import z3core

# the API's per-call error check doubles the cost of building terms
z3core.Elementaries.Check = lambda self, ctx: None

# ---------------------------------------------------------------- kinds
NONE, BOOL, INT, FLOAT, STR, LIST, DICT, TUPLE, SET, NS = range(10)
CONST0 = 100            # kinds >= CONST0 stand for a concrete object offered by the harness
KNAMES = ['none', 'bool', 'int', 'float', 'str', 'list', 'dict', 'tuple', 'set', 'ns']
PYTYPE = {NONE: type(None), BOOL: bool, INT: int, FLOAT: float, STR: str, LIST: list, DICT: dict, TUPLE: tuple,
          SET: set, NS: argparse.Namespace}
JSONKINDS = (NONE, BOOL, INT, FLOAT, STR, LIST, DICT)
SCALARS = (NONE, BOOL, INT, FLOAT, STR)
NUMERIC = {BOOL, INT, FLOAT}

INTMAX = 2 ** 53          # |int| bound (exact conversion to float) ...
HUGE = 10 ** 400          # ... plus +-HUGE, which overflow every fixed-width conversion
Q, FLTQ = 4, 2 ** 42      # floats are n/Q with |n| <= FLTQ, plus nan, inf, -inf
MICRO = 10 ** 6           # the other resolution, for durations


def resolution(q):
    """floats are multiples of 1/q: 4, or MICRO (numbers of microseconds, up to a size where they survive as floats)"""
    global Q, FLTQ
    Q, FLTQ = q, 2 ** 42 if q == 4 else 2 ** 32 * q
# free strings are over this alphabet: no character that makes int()/float() of a string anything but -?[0-9]+
ALPHABET = 'abcdxyz0123456789-'


class SxAbort(BaseException):
    """Leaves a path. BaseException, so that `except Exception` in the code under test does not swallow it."""


class Infeasible(SxAbort):
    pass


class Limit(SxAbort):
    """The code did something the engine cannot represent."""


class OutOfTime(SxAbort):
    pass


class NonDeterminism(SxAbort):
    pass


class Violation(SxAbort):
    pass


CUR = None               # the Explorer of the running path


def cur():
    if CUR is None:
        raise Limit('symbolic value used outside a path')
    return CUR


TERMS = {}               # terms are built once and reused on every path


def cached(key, make):
    t = TERMS.get(key)
    if t is None:
        t = TERMS[key] = make()
    return t


SIMP = {}


def simp(t):
    """simplified term; results are kept per (hash-consed) term"""
    i = t.get_id()
    r = SIMP.get(i)
    if r is None:
        q = z3.simplify(t)
        q = True if z3.is_true(q) else False if z3.is_false(q) else q
        r = SIMP[i] = (t, q)
    return r[1]


class Explorer:
    def __init__(self, deadline=None, timeout_ms=10000, max_paths=None):
        TERMS.clear()
        SIMP.clear()
        self.solver = z3.Solver()
        self.solver.set('timeout', timeout_ms)
        self.solver.set('random_seed', 1)
        self.deadline = deadline
        self.max_paths = max_paths
        self.events = []          # [kind, term, decision, alt_open, pushed]
        self.pos = 0
        self.model = None
        self.stats = dict(paths=0, infeasible=0, branches=0, queries=0, solver_s=0.0, obligations=0, discharged=0,
                          trivial=0, partial=0, limits=0, unknown=0, events=0)
        self.exhausted = False
        resolution(4)
        self.reset_path()

    def reset_path(self):
        self.pos = 0
        self.counter = 0
        self.roots = {}           # name -> Sym or other symbolic input
        self.choices = {}
        self.hashed_num = []
        self.hashed_str = []
        self.memo = {}
        self.pool_str = []
        self.pool_num = []
        self.partial = []
        self.aborted = None
        self.path_unknown = False
        self.records = []
        self.funcs = set()

    # ------------------------------------------------------------ solver
    def _check(self, *extra):
        t = time.perf_counter()
        r = self.solver.check(*extra)
        self.stats['solver_s'] += time.perf_counter() - t
        self.stats['queries'] += 1
        return r

    def _tick(self):
        if self.aborted is not None:
            raise self.aborted
        if self.deadline is not None and time.monotonic() > self.deadline:
            self.aborted = OutOfTime()
            raise self.aborted

    def fresh(self, prefix):
        self.counter += 1
        return '%s#%d' % (prefix, self.counter)

    def get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                self.abort(Infeasible())
            if r != z3.sat:
                self.path_unknown = True
                self.abort(Limit('solver: unknown'))
            self.model = self.solver.model()
        return self.model

    def abort(self, exc):
        self.aborted = exc
        raise exc

    def _holds(self, term):
        """Value of term under the current model."""
        return z3.is_true(self.get_model().eval(term, model_completion=True))

    def assume(self, term):
        if term is True:
            return
        if term is False:
            self.abort(Infeasible())
        self._tick()
        if self.pos < len(self.events):
            ev = self.events[self.pos]
            if ev[0] != 'a' or ev[1] is not term and not ev[1].eq(term):
                self.abort(NonDeterminism('assume %s' % term))
            self.pos += 1
            return
        self.solver.add(term)
        self.events.append(['a', term, None, False, False])
        self.stats['events'] += 1
        self.pos += 1
        if self.model is not None and not self._holds(term):
            self.model = None
        if self.model is None:
            self.get_model()

    def branch(self, term):
        """Decides a symbolic condition; both outcomes are explored when both are feasible."""
        if isinstance(term, bool):
            return term
        term = simp(term)
        if isinstance(term, bool):
            return term
        self._tick()
        if self.pos < len(self.events):
            ev = self.events[self.pos]
            if ev[0] != 'b' or ev[1] is not term and not ev[1].eq(term):
                self.abort(NonDeterminism('branch %s / %s' % (term, ev[1])))
            self.pos += 1
            return ev[2]
        self.stats['branches'] += 1
        self.stats['events'] += 1
        dec = self._holds(term)
        other = z3.Not(term) if dec else term
        r = self._check(other)
        if r == z3.unknown:
            self.stats['unknown'] += 1
            self.path_unknown = True
            alt = True
        else:
            alt = r == z3.sat
        if alt:
            self.solver.push()
            self.solver.add(term if dec else z3.Not(term))
        self.events.append(['b', term, dec, alt, alt])
        self.pos += 1
        return dec

    def pick(self, make):
        """A value that depends on the model: the same one when the prefix of a path is executed again."""
        if self.pos < len(self.events):
            ev = self.events[self.pos]
            if ev[0] != 'p':
                self.abort(NonDeterminism('pick / %s' % ev[1]))
            self.pos += 1
            return ev[1]
        v = make()
        self.events.append(['p', v, None, False, False])
        self.pos += 1
        return v

    def valid(self, term):
        """Is the term implied by the path condition? Returns (bool, model of a counterexample or None)."""
        if isinstance(term, bool):
            return term, (None if term else self.get_model())
        term = simp(term)
        if term is True:
            return True, None
        self._tick()
        if term is False:
            return False, self.get_model()
        r = self._check(z3.Not(term))
        if r == z3.unsat:
            return True, None
        if r == z3.unknown:
            self.stats['unknown'] += 1
            self.path_unknown = True
            return None, None
        return False, self.solver.model()

    def next_path(self):
        """Moves to the next unexplored path. False when there is none."""
        self.model = None
        while self.events:
            ev = self.events[-1]
            if ev[0] == 'b' and ev[4]:
                self.solver.pop()
                if ev[3]:
                    # take the other side
                    ev[2] = not ev[2]
                    ev[3] = False
                    ev[4] = True
                    self.solver.push()
                    self.solver.add(ev[1] if ev[2] else z3.Not(ev[1]))
                    return True
            self.events.pop()
        return False

    def explore(self, fn, on_path):
        """Runs fn once per feasible path. on_path(explorer, status, exc) is called at the end of each path."""
        global CUR
        while True:
            if self.deadline is not None and time.monotonic() > self.deadline:
                return False
            if self.max_paths is not None and self.stats['paths'] >= self.max_paths:
                return False
            self.reset_path()
            CUR = self
            status, exc = 'done', None
            try:
                fn()
            except Infeasible as e:
                status, exc = 'infeasible', e
            except Violation as e:
                status, exc = 'violation', e
            except OutOfTime as e:
                CUR = None
                return False
            except SxAbort as e:
                status, exc = 'limit', e
            try:
                # the code under test may have swallowed an abort in a `finally` or bare `except`
                if self.aborted is not None and status == 'done':
                    status, exc = ('infeasible' if isinstance(self.aborted, Infeasible) else 'limit'), self.aborted
                if status == 'infeasible':
                    self.stats['infeasible'] += 1
                else:
                    self.stats['paths'] += 1
                    if status == 'limit':
                        self.stats['limits'] += 1
                    if self.partial:
                        self.stats['partial'] += 1
                if not on_path(self, status, exc):
                    return False
            finally:
                CUR = None
            # drop events beyond what was replayed (an abort may have left the path early)
            if not self.next_path():
                self.exhausted = True
                return True


# ---------------------------------------------------------------- symbolic booleans
class SymBool:
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return cur().branch(self.t)

    def __eq__(self, other):
        return SymBool(self.t == bterm(other))

    def __ne__(self, other):
        return SymBool(self.t != bterm(other))

    def __hash__(self):
        return hash(bool(self))

    def __and__(self, other):
        return SymBool(z3.And(self.t, bterm(other)))

    def __or__(self, other):
        return SymBool(z3.Or(self.t, bterm(other)))

    def __invert__(self):
        return SymBool(z3.Not(self.t))

    def __repr__(self):
        return 'SymBool(%s)' % self.t

    @property
    def __class__(self):
        return bool


def bterm(x):
    if type(x) is SymBool:
        return x.t
    if type(x) is Sym:
        return bterm(x._sx_truth())
    return z3.BoolVal(bool(x))


def mkbool(t):
    if isinstance(t, bool):
        return t
    t = simp(t)
    return t if isinstance(t, bool) else SymBool(t)


_digits = z3.Range('0', '9')
RE_INT = z3.Concat(z3.Option(z3.Re('-')), z3.Plus(_digits))


class Fresh:
    """A constant of a Spec that is made anew on every path (mutable or one-shot objects)."""
    def __init__(self, make):
        self.make = make
        self.type = type(make())


class Spec:
    """Bounds of a symbolic input: which kinds, how deep, how long."""
    def __init__(self, kinds=JSONKINDS, depth=1, lens=(0, 1, 2), dlens=None, strlen=3, keykinds=(STR,), leaf=None,
                 consts=(), elem=None, key=None, skipzero=False, pool=True, childkinds=None):
        self.kinds = tuple(kinds)
        self.depth = depth
        self.lens = tuple(lens)
        self.dlens = tuple(dlens if dlens is not None else lens)
        self.strlen = strlen
        self.keykinds = tuple(keykinds)
        self.leaf = leaf          # kinds allowed at depth 0 (default: kinds minus containers, containers empty)
        self.consts = tuple(consts)
        self.elem = elem          # Spec for children (default: same with depth-1)
        self.key = key
        self.pool = pool
        self.childkinds = childkinds

    def child(self):
        if self.elem is not None:
            return self.elem
        s = Spec.__new__(Spec)
        s.__dict__.update(self.__dict__)
        s.depth = self.depth - 1
        if self.childkinds:
            s.kinds = self.childkinds
        if s.depth <= 0 and self.leaf is not None:
            s.kinds = tuple(self.leaf)
        return s

    def keyspec(self):
        if self.key is not None:
            return self.key
        s = Spec.__new__(Spec)
        s.__dict__.update(self.__dict__)
        s.kinds = self.keykinds
        s.depth = 0
        s.consts = ()
        return s


class Sym:
    __slots__ = ('_sx_name', '_sx_kv', '_sx_dom', '_sx_kind', '_sx_z', '_sx_pay', '_sx_orig', '_sx_spec', '_sx_hash',
                 '_sx_const', '__weakref__')

    def __init__(self, name, spec, kind=None, z=None):
        self._sx_name = name
        self._sx_spec = spec
        self._sx_kind = kind
        self._sx_z = z
        self._sx_pay = None
        self._sx_orig = None
        self._sx_hash = None
        self._sx_const = None
        self._sx_kv = None
        if kind is None:
            dom = tuple(spec.kinds) + tuple(CONST0 + i for i in range(len(spec.consts)))
            self._sx_dom = dom
            if len(dom) == 1:
                self._sx_kind = dom[0]
                if dom[0] >= CONST0:
                    self._sx_setkind(dom[0])
            else:
                self._sx_kv = kv = cached(('kv', name), lambda: z3.Int(name + '.kind'))
                cur().assume(cached(('kd', name, dom), lambda: z3.Or(*[kv == k for k in dom])))
        else:
            self._sx_dom = (kind,)

    # ------------------------------------------------------------ kind decisions
    def _sx_force(self):
        if self._sx_kind is None:
            for k in self._sx_dom[:-1]:
                if cur().branch(cached(('k', self._sx_name, k), lambda: self._sx_kv == k)):
                    self._sx_setkind(k)
                    break
            else:
                self._sx_setkind(self._sx_dom[-1])
        return self._sx_kind

    def _sx_setkind(self, k):
        self._sx_kind = k
        self._sx_dom = (k,)
        if k >= CONST0:
            c = self._sx_spec.consts[k - CONST0]
            self._sx_const = c.make() if type(c) is Fresh else c

    def _sx_is(self, kinds):
        """Does the kind belong to the given set? Decides only that."""
        inside = [k for k in self._sx_dom if k in kinds]
        if not inside:
            return False
        if len(inside) == len(self._sx_dom):
            return True
        r = cur().branch(cached(('kd', self._sx_name, tuple(inside)),
                                lambda: z3.Or(*[self._sx_kv == k for k in inside])))
        self._sx_dom = tuple(inside) if r else tuple(k for k in self._sx_dom if k not in kinds)
        if len(self._sx_dom) == 1:
            self._sx_setkind(self._sx_dom[0])
        return r

    def _sx_ktype(self, k):
        if k >= CONST0:
            c = self._sx_spec.consts[k - CONST0]
            return c.type if type(c) is Fresh else type(c)
        return PYTYPE[k]

    def _sx_where(self, pred):
        """Decides whether the kind's Python type satisfies pred."""
        return self._sx_is({k for k in self._sx_dom if pred(self._sx_ktype(k))})

    def _sx_type(self):
        k = self._sx_force()
        return type(self._sx_const) if k >= CONST0 else PYTYPE[k]

    def _sx_isinstance(self, cls):
        inside = set()
        for k in self._sx_dom:
            if k >= CONST0:
                c = self._sx_spec.consts[k - CONST0]
                ok = isinstance(c.make() if type(c) is Fresh else c, cls)
            else:
                ok = isinstance(SAMPLE[k], cls)
            if ok:
                inside.add(k)
        return self._sx_is(inside)

    @property
    def __class__(self):
        return self._sx_type()

    # ------------------------------------------------------------ scalar content
    def _sx_scalar(self):
        """z3 term(s) of a scalar. FLOAT: (tag, number of 1/Q)."""
        k = self._sx_force()
        if self._sx_z is None:
            sp = cur()
            n = self._sx_name
            if k == BOOL:
                self._sx_z = cached(('b', n), lambda: z3.Bool(n + '.b'))
            elif k == INT:
                v = self._sx_z = cached(('i', n), lambda: z3.Int(n + '.i'))
                sp.assume(cached(('id', n), lambda: z3.Or(z3.And(v >= -INTMAX, v <= INTMAX), v == HUGE, v == -HUGE)))
            elif k == FLOAT:
                t, q = cached(('f', n), lambda: (z3.Int(n + '.ft'), z3.Int(n + '.fq')))
                sp.assume(cached(('fd', n), lambda: z3.And(t >= 0, t <= 3, q >= -FLTQ, q <= FLTQ,
                                                           z3.Implies(t != 0, q == 0))))
                self._sx_z = (t, q)
            elif k == STR:
                self._sx_z, dom = cached(('s', n, self._sx_spec.strlen, self._sx_spec.pool, tuple(sp.pool_str)),
                                         lambda: strs.fresh(n, self._sx_spec))
                sp.assume(dom)
        return self._sx_z

    def _sx_strz(self):
        """the z3 string term of a string"""
        return strs.term(self._sx_scalar())

    def _sx_streq(self, c):
        """condition: equals the constant c"""
        if isinstance(self._sx_hash, tuple):
            return self._sx_hash[1] == c
        return strs.eq_const(self._sx_scalar(), c)

    def _sx_real(self):
        """(finite?, value in units of 1/Q) of a numeric value"""
        k = self._sx_force()
        z = self._sx_scalar()
        if k == BOOL:
            return True, cached(('r', z.get_id()), lambda: (z3.If(z, z3.IntVal(Q), z3.IntVal(0)), z))[0]
        if k == INT:
            return True, cached(('r', z.get_id()), lambda: (z * Q, z))[0]
        return cached(('r', z[0].get_id()), lambda: (z[0] == 0, z[0]))[0], z[1]

    # ------------------------------------------------------------ container content
    def _sx_payload(self):
        k = self._sx_force()
        if k >= CONST0:
            return self._sx_const
        if self._sx_pay is not None:
            return self._sx_pay
        sp = cur()
        spec = self._sx_spec
        n = self._sx_name
        if k in (LIST, TUPLE, SET):
            ln = self._sx_len(spec.lens)
            ch = spec.child()
            items = [Sym('%s[%d]' % (n, i), ch) for i in range(ln)]
            self._sx_orig = list(items)
            if k == LIST:
                self._sx_pay = items
            elif k == TUPLE:
                self._sx_pay = tuple(items)
            else:
                s = set()
                for i in items:
                    if not i._sx_hashable():
                        sp.abort(Infeasible())
                    try:
                        hash(i)
                    except TypeError:
                        sp.abort(Infeasible())
                    for o in s:
                        sp.assume(z3.Not(bterm(o == i)))
                    s.add(i)
                self._sx_pay = s
                self._sx_orig = list(s)
        elif k == DICT:
            ln = self._sx_len(spec.dlens)
            ch, ks = spec.child(), spec.keyspec()
            d = {}
            for i in range(ln):
                key = Sym('%s.k%d' % (n, i), ks)
                for o in d:
                    t = bterm(o == key)
                    sp.assume(z3.Not(t))
                d[key] = Sym('%s.v%d' % (n, i), ch)
            self._sx_pay = d
            self._sx_orig = list(d.items())
        elif k == NS:
            ln = self._sx_len(spec.dlens)
            ch = spec.child()
            ns = argparse.Namespace()
            names = []
            for i in range(ln):
                key = Sym('%s.k%d' % (n, i), Spec(kinds=(STR,), strlen=0))
                sp.assume(z3.Or(*[bterm(mkbool(key._sx_streq(c))) for c in sp.pool_str if c.isidentifier()]))
                for o in names:
                    sp.assume(z3.Not(bterm(mkbool(key._sx_streq(o)))))
                c = key._sx_resolve()
                names.append(c)
                setattr(ns, c, Sym('%s.v%d' % (n, i), ch))
            self._sx_pay = ns
            self._sx_orig = list(ns.__dict__.items())
        else:
            raise AssertionError(k)
        return self._sx_pay

    def _sx_len(self, lens):
        if self._sx_spec.depth <= 0:
            return 0
        if len(lens) == 1:
            return lens[0]
        sp = cur()
        n = self._sx_name
        v = cached(('l', n), lambda: z3.Int(n + '.len'))
        sp.assume(cached(('ld', n, lens), lambda: z3.Or(*[v == x for x in lens])))
        for x in lens[:-1]:
            if sp.branch(cached(('lx', n, x), lambda: v == x)):
                return x
        return lens[-1]

    # ------------------------------------------------------------ strings
    def _sx_resolve(self):
        """If the path condition makes this string one of the pool constants, that constant, else None."""
        h = self._sx_hashval()
        return h[1] if isinstance(h, tuple) else None

    def _sx_hashable(self):
        return not self._sx_where(lambda t: t.__hash__ is None)

    def _sx_hashval(self):
        """A hash consistent with == : decides which known value (or which earlier hashed value) this one equals."""
        if self._sx_hash is not None:
            return self._sx_hash
        k = self._sx_force()
        sp = cur()
        if k >= CONST0:
            h = ('c', self._sx_const)
            hash(self._sx_const)
        elif k == NONE:
            h = ('c', None)
        elif k == BOOL:
            b = sp.branch(self._sx_scalar())
            h = ('c', b)
            if b not in sp.pool_num:
                r = z3.IntVal(Q * int(b))
                for (o, oh) in sp.hashed_num:
                    if sp.branch(o == r):
                        h = oh
                        break
                else:
                    sp.hashed_num.append((r, h))
        elif k in (INT, FLOAT):
            h = None
            fin, r = self._sx_real()
            if fin is not True and not sp.branch(fin):
                t = self._sx_z[0]
                # nan is unequal to everything; both infinities are known constants
                if sp.branch(t == 1):
                    h = 7000001
                else:
                    h = ('c', float('inf')) if sp.branch(t == 2) else ('c', float('-inf'))
            else:
                for c in sp.pool_num:
                    u = quarters(c)
                    if u is not None and sp.branch(cached(('q', r.get_id(), u), lambda: (r == u, r))[0]):
                        h = ('c', c)
                        break
                else:
                    for (o, oh) in sp.hashed_num:
                        if sp.branch(r == o):
                            h = oh
                            break
                    else:
                        h = 8000000 + len(sp.hashed_num)
                        sp.hashed_num.append((r, h))
        elif k == STR:
            h = None
            for c in sp.pool_str:
                if sp.branch(self._sx_streq(c)):
                    h = ('c', c)
                    break
            else:
                for (o, oh) in sp.hashed_str:
                    if sp.branch(str_eq(self, o)):
                        h = oh
                        break
                else:
                    h = 9000000 + len(sp.hashed_str)
                    sp.hashed_str.append((self, h))
        elif k == TUPLE:
            h = ('c', tuple(self._sx_payload()))
            hash(h[1])
        else:
            raise TypeError("unhashable type: '%s'" % PYTYPE[k].__name__)
        self._sx_hash = h
        return h

    def __hash__(self):
        h = self._sx_hashval()
        return hash(h[1]) if isinstance(h, tuple) else h

    # ------------------------------------------------------------ comparison
    def _sx_eq(self, other):
        """Python's == as a bool or SymBool, or NotImplemented"""
        if type(other) is Sym:
            if other is self:
                if self._sx_is({FLOAT}):
                    return mkbool(self._sx_scalar()[0] != 1)
                return True
            if other._sx_isconst():
                return self == other._sx_const
            if self._sx_isconst():
                return self._sx_const == other
            if self._sx_is(NUMERIC):
                if not other._sx_is(NUMERIC):
                    return False
                return mkbool(num_eq(self, other))
            k = self._sx_force()
            if not other._sx_is({k}):
                return False
            if k == NONE:
                return True
            if k == STR:
                return mkbool(str_eq(self, other))
            return self._sx_payload() == other._sx_payload()
        t = type(other)
        if self._sx_isconst():
            return self._sx_const == other
        if t is SymBool:
            return self == Sym('sb', None, BOOL, other.t)
        if isinstance(other, (bool, int, float)) and not t.__module__ == 'enum':
            if t not in (bool, int, float):
                # subclasses (IntEnum): compare by value
                other = int(other) if isinstance(other, int) else float(other)
                t = type(other)
            if not self._sx_is(NUMERIC):
                return False
            if t is float and other != other:
                return False
            if t is int and abs(other) > 2 ** 53 and abs(other) != HUGE:
                return False        # outside the domain of symbolic numbers
            if self._sx_force() == BOOL and t is bool:
                return mkbool(self._sx_scalar() == other)
            if t is float and other in (float('inf'), float('-inf')):
                if self._sx_force() != FLOAT:
                    return False
                return mkbool(self._sx_scalar()[0] == (2 if other > 0 else 3))
            fin, r = self._sx_real()
            q = quarters(other)
            if q is None:
                return False
            e = r == q
            return mkbool(e if fin is True else z3.And(fin, e))
        if isinstance(other, str):
            if not self._sx_is({STR}):
                return False
            if isinstance(self._sx_hash, tuple):
                return self._sx_hash[1] == str.__str__(other)
            return mkbool(self._sx_streq(str.__str__(other)))
        if other is None:
            return self._sx_is({NONE})
        if t in (list, dict, tuple, set, frozenset):
            want = {list: {LIST}, dict: {DICT}, tuple: {TUPLE}, set: {SET}, frozenset: {SET}}[t]
            if not self._sx_is(want):
                return False
            return self._sx_payload() == other
        if isinstance(other, tuple):
            if not self._sx_is({TUPLE}):
                return False
            return self._sx_payload() == other
        return NotImplemented

    def _sx_isconst(self):
        cs = {k for k in self._sx_dom if k >= CONST0}
        if cs and self._sx_is(cs):
            self._sx_force()
            return True
        return False

    def __eq__(self, other):
        return self._sx_eq(other)

    def __ne__(self, other):
        r = self._sx_eq(other)
        if r is NotImplemented:
            return r
        if type(r) is SymBool:
            return mkbool(z3.Not(r.t))
        return not r

    def _sx_cmp(self, other, op):
        if self._sx_isconst():
            return NotImplemented
        if self._sx_is(NUMERIC) and (type(other) is Sym and other._sx_is(NUMERIC)
                                     or isinstance(other, (int, float)) and type(other) is not Sym):
            fa, a = self._sx_real()
            ka = self._sx_force()
            if type(other) is Sym:
                fb, b = other._sx_real()
            else:
                if other != other:
                    return False
                if other in (float('inf'), float('-inf')):
                    raise Limit('comparison with infinity')
                fb, b = True, quarters(other)
                if b is None:
                    raise Limit('comparison with a fraction')
            sp = cur()
            # nan and infinities: split
            if fa is not True and not sp.branch(fa):
                if sp.branch(self._sx_z[0] == 1):
                    return False
                a = z3.If(self._sx_z[0] == 2, z3.IntVal(10 ** 420), z3.IntVal(-10 ** 420))
            if fb is not True and not sp.branch(fb):
                if sp.branch(other._sx_z[0] == 1):
                    return False
                b = z3.If(other._sx_z[0] == 2, z3.IntVal(10 ** 420), z3.IntVal(-10 ** 420))
            return mkbool({'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op])
        if self._sx_is({STR}) and (type(other) is Sym and other._sx_is({STR}) or type(other) is str):
            a = self._sx_strz()
            b = other._sx_strz() if type(other) is Sym else sv(other)
            return mkbool({'<': a < b, '<=': a <= b, '>': b < a, '>=': b <= a}[op])
        k = self._sx_force()
        if k in (LIST, TUPLE, SET):
            import operator
            o = other._sx_payload() if type(other) is Sym and other._sx_force() == k else other
            return {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}[op](self._sx_payload(), o)
        return NotImplemented

    def __lt__(self, other):
        return self._sx_cmp(other, '<')

    def __le__(self, other):
        return self._sx_cmp(other, '<=')

    def __gt__(self, other):
        return self._sx_cmp(other, '>')

    def __ge__(self, other):
        return self._sx_cmp(other, '>=')

    # ------------------------------------------------------------ truth
    def _sx_truth(self):
        k = self._sx_force()
        if k >= CONST0:
            return bool(self._sx_const)
        if k == NONE:
            return False
        if k == BOOL:
            return mkbool(self._sx_scalar())
        if k == INT:
            return mkbool(self._sx_scalar() != 0)
        if k == FLOAT:
            t, q = self._sx_scalar()
            return mkbool(z3.Or(t != 0, q != 0))
        if k == STR:
            return not mkbool(self._sx_streq(''))
        if k == NS:
            return True
        return len(self._sx_payload()) > 0

    def __bool__(self):
        return bool(self._sx_truth())

    # ------------------------------------------------------------ container protocol
    def _sx_nosuch(self, what):
        raise TypeError("'%s' object %s" % (self._sx_tname(), what))

    def _sx_tname(self):
        names = {self._sx_ktype(k).__name__ for k in self._sx_dom}
        return names.pop() if len(names) == 1 else 'symbolic'

    def __iter__(self):
        if not self._sx_where(lambda t: hasattr(t, '__iter__')):
            self._sx_nosuch('is not iterable')
        k = self._sx_force()
        if k == STR:
            return iter(self._sx_chars())
        return iter(self._sx_payload())

    def _sx_strlen(self):
        sp = cur()
        z = self._sx_scalar()
        if isinstance(self._sx_hash, tuple):
            return len(self._sx_hash[1])
        if type(z) is strs.SStr:
            if z.pool and not sp.branch(z.p == -1):
                return len(self._sx_poolconst())
            for n in range(len(z.c)):
                if sp.branch(z.n == n):
                    return n
            return len(z.c)
        if type(z) is strs.Opq:
            raise Limit('length of text that is not modelled')
        t = strs.term(z)
        for n in range(12):
            if sp.branch(z3.Length(t) == n):
                return n
        raise Limit('length of derived text')

    def _sx_poolconst(self):
        """the constant, given that it is one outside the free domain"""
        z = self._sx_z
        for i in range(len(z.pool) - 1):
            if cur().branch(z.p == i):
                break
        else:
            i = len(z.pool) - 1
        self._sx_hash = ('c', z.pool[i])
        return z.pool[i]

    def _sx_chars(self):
        n = self._sx_strlen()
        if isinstance(self._sx_hash, tuple):
            return list(self._sx_hash[1])
        z = self._sx_scalar()
        sp1 = Spec(kinds=(STR,), strlen=1, pool=False)
        out = []
        for i in range(n):
            if type(z) is strs.SStr:
                c = strs.SStr(z3.IntVal(-1), z3.IntVal(1), [z.c[i]], [])
            else:
                c = z3.SubString(strs.term(z), i, 1)
            out.append(Sym('%s@%d' % (self._sx_name, i), sp1, STR, c))
        return out

    def __len__(self):
        if not self._sx_where(lambda t: hasattr(t, '__len__')):
            self._sx_nosuch('has no len()')
        if self._sx_force() == STR:
            return self._sx_strlen()
        return len(self._sx_payload())

    def __contains__(self, x):
        if not self._sx_where(lambda t: hasattr(t, '__contains__') or hasattr(t, '__iter__')):
            self._sx_nosuch('is not a container')
        if self._sx_force() == STR:
            if type(x) is Sym:
                if not x._sx_is({STR}):
                    raise TypeError("'in <string>' requires string as left operand")
                return bool(SymBool(z3.Contains(self._sx_strz(), x._sx_strz())))
            if not isinstance(x, str):
                raise TypeError("'in <string>' requires string as left operand")
            return bool(SymBool(z3.Contains(self._sx_strz(), sv(x))))
        return x in self._sx_payload()

    def __getitem__(self, i):
        if not self._sx_where(lambda t: hasattr(t, '__getitem__')):
            self._sx_nosuch('is not subscriptable')
        if self._sx_force() == STR:
            r = self._sx_chars()[i]
            if isinstance(r, list):
                return concat_str(r)
            return r
        return self._sx_payload()[i]

    def __setitem__(self, i, v):
        if not self._sx_where(lambda t: hasattr(t, '__setitem__')):
            self._sx_nosuch('does not support item assignment')
        self._sx_payload()[i] = v

    def __delitem__(self, i):
        if not self._sx_where(lambda t: hasattr(t, '__delitem__')):
            self._sx_nosuch('does not support item deletion')
        del self._sx_payload()[i]

    def __reversed__(self):
        if not self._sx_where(lambda t: hasattr(t, '__reversed__') or hasattr(t, '__getitem__')):
            self._sx_nosuch('is not reversible')
        if self._sx_force() == STR:
            return reversed(self._sx_chars())
        return reversed(self._sx_payload())

    def __dir__(self):
        k = self._sx_force()
        return dir(self._sx_const) if k >= CONST0 else dir(PYTYPE[k]) if k != NS else dir(self._sx_payload())

    # ------------------------------------------------------------ attributes
    def _sx_hasattr(self, name):
        def has(k):
            if k >= CONST0:
                c = self._sx_spec.consts[k - CONST0]
                return hasattr(c.make() if type(c) is Fresh else c, name)
            return hasattr(PYTYPE[k], name)
        inside = {k for k in self._sx_dom if has(k)}
        r = self._sx_is(inside)
        if not r and self._sx_is({NS}):
            return hasattr(self._sx_payload(), name)
        return r

    def __getattr__(self, name):
        if name.startswith('_sx_'):
            raise AttributeError(name)
        if not self._sx_hasattr(name):
            raise AttributeError("'%s' object has no attribute '%s'" % (self._sx_tname(), name))
        k = self._sx_force()
        if k >= CONST0:
            return getattr(self._sx_const, name)
        if k in (LIST, DICT, TUPLE, SET, NS):
            return getattr(self._sx_payload(), name)
        from . import models
        return models.scalar_method(self, k, name)

    # ------------------------------------------------------------ arithmetic and text
    def __add__(self, other):
        from . import models
        return models.add(self, other)

    def __radd__(self, other):
        from . import models
        return models.add(other, self)

    def __mul__(self, other):
        from . import models
        return models.arith(self, other, '*')

    __rmul__ = __mul__

    def __sub__(self, other):
        from . import models
        return models.arith(self, other, '-')

    def __rsub__(self, other):
        from . import models
        return models.arith(other, self, '-')

    def __neg__(self):
        from . import models
        return models.arith(0, self, '-')

    def __mod__(self, other):
        from . import models
        return models.mod(self, other)

    def __or__(self, other):
        if self._sx_is({DICT, SET}):
            return self._sx_payload() | (other._sx_payload() if type(other) is Sym else other)
        from . import models
        return models.realize(self) | other

    def __ror__(self, other):
        if self._sx_is({DICT, SET}):
            return other | self._sx_payload()
        from . import models
        return other | models.realize(self)

    def __and__(self, other):
        if self._sx_is({SET}):
            return self._sx_payload() & (other._sx_payload() if type(other) is Sym else other)
        from . import models
        return models.realize(self) & other

    def __int__(self):
        from . import models
        return int(models.realize(self))

    def __index__(self):
        if not self._sx_is({BOOL, INT}):
            self._sx_nosuch('cannot be interpreted as an integer')
        from . import models
        return int(models.realize(self))

    def __float__(self):
        from . import models
        return float(models.realize(self))

    # messages are not the subject of most properties: an opaque, deterministic text that decides nothing
    def __repr__(self):
        return '<%s>' % self._sx_name

    def __str__(self):
        return '<%s>' % self._sx_name

    def __format__(self, spec):
        return '<%s>' % self._sx_name


RE_CANON = z3.Union(z3.Re('0'), z3.Concat(z3.Option(z3.Re('-')), z3.Range('1', '9'), z3.Star(_digits)))


def canon_int(c):
    try:
        i = int(c)
    except ValueError:
        return None
    return i if str(i) == c else None


def str_eq(a, b):
    """equality of two symbolic strings"""
    if isinstance(a._sx_hash, tuple):
        return b._sx_streq(a._sx_hash[1])
    if isinstance(b._sx_hash, tuple):
        return a._sx_streq(b._sx_hash[1])
    return strs.eq(a._sx_scalar(), b._sx_scalar())


def quarters(x):
    """Q * x as an int, or None"""
    if isinstance(x, int):
        return int(x) * Q
    if x != x or x in (float('inf'), float('-inf')):
        return None
    u = round(x * Q)
    return u if u / Q == x else None


def num_eq(a, b):
    fa, ra = a._sx_real()
    fb, rb = b._sx_real()
    ka, kb = a._sx_kind, b._sx_kind
    if ka == INT and kb == INT:
        return a._sx_z == b._sx_z
    if ka == BOOL and kb == BOOL:
        return a._sx_z == b._sx_z
    if ka == FLOAT and kb == FLOAT:
        ta, qa = a._sx_z
        tb, qb = b._sx_z
        return z3.And(ta == tb, ta != 1, qa == qb)
    e = ra == rb
    cond = [x for x in (fa, fb) if x is not True]
    return z3.And(*cond, e) if cond else e


def realstr(x):
    if isinstance(x, bool):
        return '1' if x else '0'
    if isinstance(x, int):
        return str(x)
    n, d = x.as_integer_ratio()
    return '%d/%d' % (n, d)


def escape(s):
    return ''.join(c if 32 <= ord(c) < 127 and c != '\\' else '\\u{%x}' % ord(c) for c in s)


_sv = {}


def sv(s):
    if s not in _sv:
        _sv[s] = z3.StringVal(escape(s))
    return _sv[s]


def unescape(s):
    out, i = [], 0
    while i < len(s):
        if s.startswith('\\u{', i):
            j = s.index('}', i)
            out.append(chr(int(s[i + 3:j], 16)))
            i = j + 1
        elif s.startswith('\\x', i) and i + 4 <= len(s):
            out.append(chr(int(s[i + 2:i + 4], 16)))
            i += 4
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


def isopaque(x):
    return type(x) is Sym and type(x._sx_z) is strs.Opq


def mkstr(term, name='str'):
    """A symbolic string from a z3 string term (a plain str if it is constant)."""
    term = z3.simplify(term)
    if z3.is_string_value(term):
        return unescape(term.as_string())
    return Sym(cur().fresh(name), None, STR, term)


def strterm(x):
    return x._sx_strz() if type(x) is Sym else sv(x)


def concat_str(parts):
    parts = [p for p in parts if not (type(p) is str and p == '')]
    if not parts:
        return ''
    if len(parts) == 1:
        return parts[0]
    if all(type(p) is str for p in parts):
        return ''.join(parts)
    if getattr(cur(), 'token_text', False):
        return ''.join(p if type(p) is str else '<' + p._sx_name + '>' for p in parts)
    if any(isopaque(p) for p in parts) and not getattr(cur(), 'symbolic_text', False):
        from . import models
        return models.opaque_str()
    return mkstr(z3.Concat(*[strterm(p) for p in parts]), 'concat')


def mkint(term, name='int'):
    term = z3.simplify(term)
    if z3.is_int_value(term):
        return term.as_long()
    return Sym(cur().fresh(name), None, INT, term)


def mkfloat(q, name='float'):
    """a finite float of q/Q"""
    q = z3.simplify(q)
    if z3.is_int_value(q):
        return q.as_long() / Q
    return Sym(cur().fresh(name), None, FLOAT, (z3.IntVal(0), q))


from . import strs      # noqa: E402

SAMPLE = {NONE: None, BOOL: True, INT: 5, FLOAT: 1.5, STR: 'x', LIST: [], DICT: {}, TUPLE: (), SET: set(),
          NS: argparse.Namespace()}
