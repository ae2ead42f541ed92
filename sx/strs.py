"""
Symbolic strings.  Input strings are bounded character vectors over integers (no string theory): either one of the
known constants that lie outside the free domain (index p), or n characters of the alphabet.  Texts made by the code
are derived: decimal texts of numbers, texts whose content is not modelled (opaque, only identity counts), or, where
text is concatenated, z3 string terms.
"""
import z3

from . import core

A_ORD = sorted(ord(c) for c in core.ALPHABET)


def ranges():
    out = []
    for o in A_ORD:
        if out and out[-1][1] == o - 1:
            out[-1][1] = o
        else:
            out.append([o, o])
    return out


RANGES = ranges()
_pred = {}


class SStr:
    """an input string"""
    __slots__ = ('p', 'n', 'c', 'pool', 'z', 'eqs', 'num')

    def __init__(self, p, n, c, pool):
        self.p, self.n, self.c, self.pool, self.z = p, n, c, pool, None
        self.eqs = {}       # comparisons built so far
        self.num = None

    def term(self):
        if self.z is None:
            parts = [z3.If(self.n > i, z3.StrFromCode(ch), z3.StringVal('')) for i, ch in enumerate(self.c)]
            t = z3.StringVal('') if not parts else parts[0] if len(parts) == 1 else z3.Concat(*parts)
            for i, s in enumerate(self.pool):
                t = z3.If(self.p == i, core.sv(s), t)
            self.z = z3.simplify(t)
        return self.z


class Opq:
    """text that is not modelled"""
    __slots__ = ('id',)

    def __init__(self, id_):
        self.id = id_


class Num:
    """decimal text of an integer ('i') or of a finite float in units of 1/Q ('f')"""
    __slots__ = ('kind', 't', 'z')

    def __init__(self, kind, t):
        self.kind, self.t, self.z = kind, t, None

    def term(self):
        if self.z is None:
            t = self.t
            if self.kind == 'i':
                self.z = z3.If(t >= 0, z3.IntToStr(t), z3.Concat(z3.StringVal('-'), z3.IntToStr(-t)))
            elif core.Q != 4:
                raise core.Limit('text of a float of this resolution')
            else:
                a = z3.If(t >= 0, t, -t)
                m = a % 4
                frac = z3.If(m == 0, z3.StringVal('.0'), z3.If(m == 1, z3.StringVal('.25'), z3.If(
                    m == 2, z3.StringVal('.5'), z3.StringVal('.75'))))
                self.z = z3.Concat(z3.If(t < 0, z3.StringVal('-'), z3.StringVal('')), z3.IntToStr(a / 4), frac)
        return self.z


def representable(c, n):
    return len(c) <= n and all(ch in core.ALPHABET for ch in c)


def fresh(name, spec):
    """a new input string and its domain constraint"""
    sp = core.cur()
    L = spec.strlen
    pool = [c for c in sp.pool_str if not representable(c, L)] if spec.pool else []
    n = z3.Int(name + '.n') if L else z3.IntVal(0)
    cs = [z3.Int('%s.c%d' % (name, i)) for i in range(L)]
    free = []
    if L:
        free.append(z3.And(n >= 0, n <= L))
        for i, c in enumerate(cs):
            inside = z3.Or(*[z3.And(c >= a, c <= b) if a != b else c == a for a, b in RANGES])
            free.append(z3.If(n > i, inside, c == 0))
    if pool:
        p = z3.Int(name + '.p')
        cond = [z3.And(p >= -1, p < len(pool))]
        if free:
            cond += free + [z3.Implies(p >= 0, n == 0)]
    else:
        p = z3.IntVal(-1)
        cond = free
    return SStr(p, n, cs, pool), (z3.And(*cond) if cond else True)


def eq_const(z, c):
    """z3 condition (or bool): does the string equal the constant?"""
    if type(z) is SStr:
        r = z.eqs.get(c)
        if r is None:
            r = z.eqs[c] = _eq_const(z, c)
        return r
    return _eq_const(z, c)


def _eq_const(z, c):
    if type(z) is SStr:
        if c in z.pool:
            return z.p == z.pool.index(c)
        if not representable(c, len(z.c)):
            return False
        e = [z.n == len(c)] + [z.c[i] == ord(ch) for i, ch in enumerate(c)]
        if z.pool:
            e.append(z.p == -1)
        return z3.And(*e)
    if type(z) is Num:
        if z.kind == 'i':
            i = core.canon_int(c)
            return False if i is None else z.t == i
        try:
            f = float(c)
        except ValueError:
            return False
        return z.t == core.quarters(f) if abs(f) < 1e18 and str(f) == c and core.quarters(f) is not None else False
    if type(z) is Opq:
        return False
    return z == core.sv(c)


def term(z):
    if type(z) in (SStr, Num):
        return z.term()
    if type(z) is Opq:
        # content unknown; any string that no constant equals
        return z3.Concat(z3.StringVal('\\u{1}opaque'), z3.IntToStr(z.id))
    return z


def eq(a, b):
    if type(a) is SStr:
        r = a.eqs.get(id(b))
        if r is None:
            r = a.eqs[id(b)] = (_eq(a, b), b)
        return r[0]
    return _eq(a, b)


def _eq(a, b):
    ta, tb = type(a), type(b)
    if ta is SStr and tb is SStr:
        if len(a.c) < len(b.c):
            a, b = b, a
        conds = [a.n == b.n] + [x == y for x, y in zip(a.c, b.c)] + [x == 0 for x in a.c[len(b.c):]]
        if a.pool == b.pool:
            if a.pool:
                conds.append(a.p == b.p)
            return z3.And(*conds)
        # different domains: a constant of one may be free in the other
        alts = [z3.And(a.p == -1, b.p == -1, *conds)]
        for i, c in enumerate(a.pool):
            e = eq_const(b, c)
            if e is not False:
                alts.append(z3.And(a.p == i, e))
        for i, c in enumerate(b.pool):
            if c not in a.pool:
                e = eq_const(a, c)
                if e is not False:
                    alts.append(z3.And(b.p == i, e))
        return z3.Or(*alts)
    if ta is Opq or tb is Opq:
        return a.id == b.id if ta is tb else False
    if ta is Num and tb is Num:
        return a.t == b.t if a.kind == b.kind else False
    if ta is SStr and tb is Num:
        a, b, ta, tb = b, a, tb, ta
    if ta is Num and tb is SStr:
        alts = []
        for i, c in enumerate(b.pool):
            e = eq_const(a, c)
            if e is not False:
                alts.append(z3.And(b.p == i, e))
        if a.kind == 'i' and b.c:
            valid, value, canon = parse(b)
            alts.append(z3.And(b.p == -1, canon, value == a.t))
        return z3.Or(*alts) if alts else False
    return term(a) == term(b)


def parse(s):
    """(is -?[0-9]+, its value, is canonical) for the free part of an input string"""
    if s.num is None:
        s.num = _parse(s)
    return s.num


def _parse(s):
    L = len(s.c)
    valid, canon, value = [], [], z3.IntVal(0)
    dig = [z3.And(c >= 48, c <= 57) for c in s.c]

    def val(cs):
        v = z3.IntVal(0)
        for c in cs:
            v = v * 10 + (c - 48)
        return v
    for n in range(1, L + 1):
        neg = s.c[0] == 45
        pos_ok = z3.And(s.n == n, *dig[:n])
        valid.append(pos_ok)
        canon.append(pos_ok if n == 1 else z3.And(pos_ok, s.c[0] != 48))
        v = val(s.c[:n])
        if n >= 2:
            neg_ok = z3.And(s.n == n, neg, *dig[1:n])
            valid.append(neg_ok)
            canon.append(z3.And(neg_ok, s.c[1] != 48))
            v = z3.If(neg, -val(s.c[1:n]), v)
        value = z3.If(s.n == n, v, value)
    f = z3.BoolVal(False)
    return (z3.Or(*valid) if valid else f), value, (z3.Or(*canon) if canon else f)


def text(z, model):
    """the concrete text under a model"""
    ev = lambda t: model.eval(t, model_completion=True)
    if type(z) is SStr:
        p = ev(z.p).as_long()
        if p >= 0:
            return z.pool[p] if p < len(z.pool) else ''
        n = ev(z.n).as_long()
        return ''.join(chr(ev(c).as_long()) for c in z.c[:n])
    if type(z) is Num:
        v = ev(z.t).as_long()
        return str(v) if z.kind == 'i' else str(v / core.Q)
    return core.unescape(ev(z).as_string())
