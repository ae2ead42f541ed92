"""
Models of the Python builtins and standard library constructors that the code under test applies to symbolic values,
and the hooks the instrumented code calls.  Everything not modelled falls back to `realize`: the value is fixed to one
model value, the rest of its domain is not explored, and the path is marked partial (counted in the evidence).
"""
import argparse
import builtins
import datetime
import enum
import functools
import inspect
import ipaddress
import itertools
import operator
import pathlib
import re
import types
import uuid

import z3

from . import core, strs
from .core import (Sym, SymBool, Spec, cur, mkbool, mkint, mkfloat, mkstr, strterm, concat_str, bterm, sv,
                   NONE, BOOL, INT, FLOAT, STR, LIST, DICT, TUPLE, SET, NS, CONST0, HUGE, INTMAX, FLTQ, PYTYPE)


def sym(x):
    return type(x) is Sym


# ---------------------------------------------------------------- realisation
def realize(x):
    """Fixes a symbolic value to one concrete value. Marks the path partial unless the value was already determined."""
    from .conc import concretize
    if type(x) is SymBool:
        return bool(x)
    if type(x) is not Sym:
        return x
    sp = cur()
    k = x._sx_force()
    if k >= CONST0:
        return x._sx_const
    if k in (NONE,):
        return None
    if k in (LIST, DICT, TUPLE, SET):
        p = x._sx_payload()
        if k == DICT:
            return {realize(a): realize(b) for a, b in p.items()}
        return type(p)(realize(i) for i in p)
    if k == NS:
        return x._sx_payload()
    if k == BOOL:
        return sp.branch(x._sx_scalar())
    if k == STR and isinstance(x._sx_hash, tuple):
        return x._sx_hash[1]
    z = x._sx_scalar()

    def make():
        m = sp.get_model()
        v = concretize(x, m)
        if core.isopaque(x):
            raise core.Limit('content of text that is not modelled')
        if k == STR:
            t = x._sx_streq(v)
        elif k == INT:
            t = z == v
        else:
            t = z3.And(z[0] == m.eval(z[0], model_completion=True), z[1] == m.eval(z[1], model_completion=True))
        return v, t, sp.valid(t)[0]

    v, t, ok = sp.pick(make)
    if not ok:
        sp.partial.append('%s fixed to %r' % (x._sx_name, v))
        sp.assume(t)
    return v


def bycases(f, x):
    """Calls f on the Python value of a symbolic string: one path per pool constant, other strings realized."""
    if sym(x) and x._sx_is({STR}):
        x._sx_force()
        c = x._sx_resolve()
        if c is not None:
            return f(c)
    return f(realize(x))


# ---------------------------------------------------------------- conversions
def m_type(*args):
    if len(args) == 1:
        x = args[0]
        if type(x) is Sym:
            return x._sx_type()
        if type(x) is SymBool:
            return bool
        if isinstance(type(x), type) and getattr(type(x), '_sx_model', False):
            return x.__class__
    return type(*args)


def m_round(x, n=None):
    if not sym(x) or not x._sx_is({BOOL, INT, FLOAT}) or sym(n):
        return round(realize(x), *(() if n is None else (realize(n),)))
    k = x._sx_force()
    if k != FLOAT:
        return m_int(x) if n is None or n >= 0 else round(realize(x), n)
    t, q = x._sx_scalar()
    if cur().branch(t != 0):
        if n is not None:
            return x
        raise (ValueError if cur().branch(t == 1) else OverflowError)('cannot convert float to integer')
    unit = core.Q // 10 ** (n or 0) if n is None or n >= 0 else None
    if unit is None or core.Q == 4 and n:
        return round(realize(x), n)
    if unit <= 1:
        return x
    lo, r = q / unit, q % unit
    m = z3.If(z3.Or(2 * r > unit, z3.And(2 * r == unit, lo % 2 != 0)), lo + 1, lo)
    return mkint(m, 'rounded') if n is None else mkfloat(m * unit, 'rounded')


def m_isinstance(x, cls):
    if type(x) is Sym:
        return x._sx_isinstance(cls)
    return isinstance(x, cls)


def m_int(x=0, *a):
    if not sym(x) or a:
        return int(realize(x), *a) if sym(x) else int(x, *a)
    sp = cur()
    if not x._sx_is({BOOL, INT, FLOAT, STR} | {k for k in x._sx_dom if k >= CONST0}):
        raise TypeError("int() argument must be a string, a bytes-like object or a real number, not '%s'"
                        % x._sx_tname())
    k = x._sx_force()
    if k >= CONST0:
        return int(x._sx_const)
    if k == BOOL:
        return mkint(z3.If(x._sx_scalar(), z3.IntVal(1), z3.IntVal(0)))
    if k == INT:
        return x
    if k == FLOAT:
        t, q = x._sx_scalar()
        if sp.branch(t != 0):
            if sp.branch(t == 1):
                raise ValueError('cannot convert float NaN to integer')
            raise OverflowError('cannot convert float infinity to integer')
        return mkint(z3.If(q >= 0, q / core.Q, -((-q) / core.Q)), 'trunc')
    return _str_to_int(x, int)


def _str_to_int(x, f):
    sp = cur()
    if isinstance(x._sx_hash, tuple):
        return f(x._sx_hash[1])
    z = x._sx_scalar()
    bad = (lambda: ValueError("invalid literal for int() with base 10: %r" % x)) if f is int else (
        lambda: ValueError("could not convert string to float: %r" % x))
    if type(z) is strs.Opq:
        raise bad()
    if type(z) is strs.Num:
        if z.kind == 'i':
            return mkint(z.t, 'parsed') if f is int else m_float(mkint(z.t, 'parsed'))
        if f is int:
            raise bad()
        return mkfloat(z.t)
    if type(z) is not strs.SStr:
        return f(realize(x))
    if z.pool and not sp.branch(z.p == -1):
        return f(x._sx_poolconst())
    valid, v, _ = strs.parse(z)
    if not sp.branch(valid):
        raise bad()
    if f is int:
        return mkint(v, 'parsed')
    return mkfloat(v * core.Q, 'parsedf')


def m_float(x=0.0):
    if not sym(x):
        return float(x)
    sp = cur()
    if not x._sx_is({BOOL, INT, FLOAT, STR} | {k for k in x._sx_dom if k >= CONST0}):
        raise TypeError("float() argument must be a string or a real number, not '%s'" % x._sx_tname())
    k = x._sx_force()
    if k >= CONST0:
        return float(x._sx_const)
    if k == FLOAT:
        return x
    if k == BOOL:
        return mkfloat(z3.If(x._sx_scalar(), z3.IntVal(core.Q), z3.IntVal(0)))
    if k == INT:
        i = x._sx_scalar()
        if sp.branch(z3.Or(i > INTMAX, i < -INTMAX)):
            raise OverflowError('int too large to convert to float')
        return mkfloat(i * core.Q)
    return _str_to_int(x, float)


def m_str(x='', *a):
    if a:
        return str(realize(x), *a)
    if not sym(x):
        if getattr(type(x), '_sx_model', False):
            return x._sx_text()
        if isinstance(x, BaseException) or '__str__' in type(x).__dict__ and isinstance(type(x).__str__,
                                                                                      types.FunctionType):
            # Python-level __str__ may produce symbolic text
            f = type(x).__str__
            if isinstance(f, types.FunctionType):
                return f(x)
            if isinstance(x, BaseException) and len(x.args) == 1:
                return m_str(x.args[0])
        return str(x)
    sp = cur()
    k = x._sx_force()
    if k >= CONST0:
        return str(x._sx_const)
    if k == STR:
        return x
    key = ('str', id(x))
    if key in sp.memo:
        return sp.memo[key][0]
    if k == NONE:
        r = 'None'
    elif k == BOOL:
        r = 'True' if sp.branch(x._sx_scalar()) else 'False'
    elif k == INT:
        r = Sym(sp.fresh('itos'), None, STR, strs.Num('i', x._sx_scalar()))
    elif k == FLOAT:
        t, q = x._sx_scalar()
        if sp.branch(t != 0):
            r = 'nan' if sp.branch(t == 1) else 'inf' if sp.branch(t == 2) else '-inf'
        else:
            r = Sym(sp.fresh('ftos'), None, STR, strs.Num('f', q))
    elif k != NS and (x._sx_pay is not None or x._sx_spec.depth <= 0) and len(x._sx_payload()) == 0:
        r = str(PYTYPE[k]())
    else:
        printable(x)
        r = opaque_str({LIST: '[', DICT: '{', TUPLE: '(', SET: '{', NS: 'Namespace('}[k])
    sp.memo[key] = (r, x)
    return r


def textof(x):
    """text of a plain container or object with symbolic parts: not modelled, the same for the same object"""
    sp = cur()
    key = ('text', id(x))
    if key not in sp.memo:
        printable(x)
        sp.memo[key] = (opaque_str(), x)
    return sp.memo[key][0]


def unprintable(k, spec):
    c = spec.consts[k - CONST0]
    return isinstance(c, int) and c.bit_length() > 10000


def printable(x, depth=0):
    """raises like repr() if some part has no text"""
    if type(x) is Sym:
        if x._sx_spec is not None and x._sx_spec.consts:
            bad = {k for k in x._sx_dom if k >= CONST0 and unprintable(k, x._sx_spec)}
            if bad and x._sx_is(bad):
                repr(x._sx_const)
        if depth < 8 and (x._sx_pay is not None or x._sx_spec is not None and x._sx_spec.elem is not None and any(
                unprintable(CONST0 + i, x._sx_spec.elem) for i in range(len(x._sx_spec.elem.consts)))):
            if x._sx_is({LIST, DICT, TUPLE, SET, NS}):
                printable(x._sx_payload(), depth + 1)
    elif isinstance(x, (list, tuple, set, frozenset)) and depth < 8:
        for i in x:
            printable(i, depth + 1)
    elif isinstance(x, dict) and depth < 8:
        for k, v in x.items():
            printable(k, depth + 1)
            printable(v, depth + 1)
    elif type(x) is argparse.Namespace:
        printable(x.__dict__, depth + 1)
    elif type(x) is int and x.bit_length() > 10000:
        repr(x)


def opaque_str(prefix=''):
    """text whose content is not modelled; it differs from every constant and every text of another form"""
    sp = cur()
    n = sp.fresh('opaque')
    v = z3.Int(n)
    sp.assume(v >= 0)
    return Sym(n, None, STR, strs.Opq(v))


def m_bool(x=False):
    if sym(x):
        return x._sx_truth() if type(x._sx_truth()) is bool else Sym(cur().fresh('bool'), None, BOOL, bterm(x))
    if type(x) is SymBool:
        return Sym(cur().fresh('bool'), None, BOOL, x.t)
    return bool(x)


def m_repr(x):
    if sym(x):
        key = ('repr', id(x))
        if key not in cur().memo:
            k = x._sx_force()
            if k in (NONE, BOOL, INT, FLOAT):
                r = m_str(x)
            elif k >= CONST0:
                r = repr(x._sx_const)
            elif k == STR and isinstance(x._sx_hash, tuple):
                r = repr(x._sx_hash[1])
            elif k == STR and x._sx_spec is not None and not x._sx_spec.pool:
                r = concat_str(["'", x, "'"])
            else:
                printable(x)
                r = opaque_str()
            cur().memo[key] = (r, x)
        return cur().memo[key][0]
    return repr(x)


def m_len(x):
    return len(x)


def m_hasattr(x, name):
    name = fixname(name)
    if sym(x):
        return x._sx_hasattr(name)
    return hasattr(x, name)


def m_getattr(x, name, *d):
    name = fixname(name)
    if sym(x):
        if d:
            return getattr(x, name) if x._sx_hasattr(name) else d[0]
        return getattr(x, name)
    return getattr(x, name, *d)


def m_setattr(x, name, v):
    return setattr(x, fixname(name), v)


def fixname(n):
    if sym(n):
        if not n._sx_is({STR}):
            raise TypeError('attribute name must be string, not %r' % n._sx_tname())
        n._sx_force()
        c = n._sx_resolve()
        return c if c is not None else realize(n)
    return n


def m_callable(x):
    if sym(x):
        k = x._sx_force()
        return callable(x._sx_const) if k >= CONST0 else False
    return callable(x)


def m_dir(*a):
    return dir(*a)


def m_tuple(*a):
    return tuple(*a)


def m_id(x):
    return id(x)


# ---------------------------------------------------------------- text
def mod(fmt, arg):
    """fmt % arg"""
    if sym(fmt):
        if fmt._sx_is({STR}):
            fmt = realize(fmt)
        else:
            return arith(fmt, arg, '%')
    if not isinstance(fmt, str):
        return fmt % arg
    args = None
    if sym(arg):
        args = tuple(arg._sx_payload()) if arg._sx_is({TUPLE}) else (arg,)
        single = True
    elif isinstance(arg, tuple):
        args = arg
    elif getattr(type(arg), '_sx_model', False):
        args = (arg,)
    if args is None or not any(sym(a) or getattr(type(a), '_sx_model', False) or isinstance(a, BaseException) for a in args):
        return fmt % arg
    parts = re.split(r'(%%|%[srd]|%[^%srd])', fmt)
    out, i = [], 0
    for p in parts:
        if p == '%%':
            out.append('%')
        elif p in ('%s', '%r', '%d'):
            if i >= len(args):
                raise TypeError('not enough arguments for format string')
            a = args[i]
            i += 1
            out.append(fmt_one(p[1], a))
        elif p.startswith('%') and len(p) == 2:
            return fmt % (tuple(realize(a) for a in args))
        else:
            out.append(p)
    if i < len(args):
        raise TypeError('not all arguments converted during string formatting')
    return concat_str(out)


def fmt_one(c, a):
    sp = cur()
    if c == 'd':
        if sym(a):
            if not a._sx_is({BOOL, INT, FLOAT}):
                raise TypeError('%d format: a real number is required, not ' + a._sx_tname())
            return m_str(m_int(a))
        return '%d' % a
    if sym(a) and a._sx_kind == INT:
        return m_str(a)
    if sym(a) and not sp_symfmt():
        # opaque rendering: decides nothing
        return '%' + c + '<' + a._sx_name + '>'
    return m_str(a) if c == 's' else m_repr(a)


def sp_symfmt():
    return getattr(cur(), 'symbolic_text', False)


def hassym(a, depth=6):
    """symbolic parts in something that would be rendered"""
    if is_symbolic(a):
        return True
    if depth == 0:
        return False
    if isinstance(a, dict):
        return any(hassym(k, depth - 1) or hassym(v, depth - 1) for k, v in a.items())
    if isinstance(a, (list, tuple, set, frozenset)):
        return any(hassym(i, depth - 1) for i in a)
    d = getattr(a, '__dict__', None)
    if isinstance(d, dict) and not isinstance(a, (type, types.ModuleType, types.FunctionType)):
        return any(hassym(v, depth - 1) for v in d.values())
    return False


def m_fstring(*parts):
    out = []
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            if sym(v) or isinstance(v, BaseException) or getattr(type(v), '_sx_model', False):
                if spec in ('d',):
                    out.append(fmt_one('d', v))
                else:
                    out.append(fmt_one('r' if conv == 114 else 's', v))
            else:
                if conv == 114:
                    v = repr(v)
                elif conv == 115:
                    v = str(v)
                elif conv == 97:
                    v = ascii(v)
                out.append(format(v, spec))
        else:
            out.append(p)
    return concat_str(out)


def add(a, b):
    for x in (a, b):
        if not sym(x):
            continue
    ka = a._sx_force() if sym(a) else None
    kb = b._sx_force() if sym(b) else None
    sa = ka == STR or isinstance(a, str) and not sym(a)
    sb = kb == STR or isinstance(b, str) and not sym(b)
    if sa and sb:
        return concat_str([a, b])
    if sa or sb:
        raise TypeError('can only concatenate str to str')
    if ka in (LIST, TUPLE) or kb in (LIST, TUPLE):
        return (a._sx_payload() if sym(a) else a) + (b._sx_payload() if sym(b) else b)
    return arith(a, b, '+')


def arith(a, b, op):
    def num(x):
        if sym(x):
            if not x._sx_is({BOOL, INT, FLOAT}):
                raise TypeError('unsupported operand type(s) for %s: %s' % (op, x._sx_tname()))
            k = x._sx_force()
            if k == BOOL:
                return 'i', z3.If(x._sx_scalar(), z3.IntVal(1), z3.IntVal(0))
            if k == INT:
                return 'i', x._sx_scalar()
            return 'f', x
        if isinstance(x, int):
            return 'i', z3.IntVal(int(x))
        return 'f', x
    if op == '*' and (sym(a) and a._sx_is({STR, LIST, TUPLE}) or sym(b) and b._sx_is({STR, LIST, TUPLE})):
        return realize(a) * realize(b)
    (ta, va), (tb, vb) = num(a), num(b)
    if ta == 'i' and tb == 'i' and op in '+-*':
        return mkint({'+': lambda: va + vb, '-': lambda: va - vb, '*': lambda: va * vb}[op]())
    return {'+': operator.add, '-': operator.sub, '*': operator.mul, '%': operator.mod}[op](realize(a), realize(b))


def scalar_method(x, k, name):
    f = getattr(PYTYPE[k], name)
    if not callable(f) or isinstance(f, (types.GetSetDescriptorType, types.MemberDescriptorType)):
        if k == INT and name in ('real', 'numerator'):
            return x
        return getattr(realize(x), name)
    if k == STR:
        def call(*a, **kw):
            s = x._sx_strz()
            if name in ('startswith', 'endswith') and len(a) == 1 and not isinstance(a[0], tuple):
                fn = z3.PrefixOf if name == 'startswith' else z3.SuffixOf
                return mkbool(fn(strterm(a[0]), s))
            if name in ('__eq__',):
                return x == a[0]
            if name in ('__str__', 'format') and not a and not kw:
                return x
            if name == 'isdigit':
                return mkbool(z3.InRe(s, z3.Plus(core._digits)))
            return getattr(bycases(lambda v: v, x), name)(*[realize(i) for i in a], **kw)
        call.__name__ = name
        return call
    return getattr(realize(x), name) if name not in ('is_integer',) else (
        lambda: mkbool(z3.And(x._sx_scalar()[0] == 0, x._sx_scalar()[1] % core.Q == 0)) if k == FLOAT else True)


def m_format(fmt, args, kw):
    """str.format with a concrete format string."""
    import string
    if not any(sym(a) or getattr(type(a), '_sx_model', False) or hassym(a) for a in list(args) + list(kw.values())):
        return fmt.format(*args, **kw)
    out, auto = [], 0
    for lit, name, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if name is None:
            continue
        if spec and '{' in spec:
            return opaque_str()
        first, rest = string._string.formatter_field_name_split(name)
        if first == '':
            first, auto = auto, auto + 1
        v = args[first] if isinstance(first, int) else kw[first]
        for is_attr, k in rest:
            v = models_getattr(v, k) if is_attr else v[k]
        out.append((v, {'r': 114, 's': 115, 'a': 97}.get(conv, -1), spec or ''))
    return m_fstring(*[p for p in out if p != ''])


def models_getattr(v, k):
    return getattr(v, k)


def m_join(sep, items):
    items = list(items)
    if not any(sym(i) for i in items):
        return sep.join(items)
    out = []
    for n, i in enumerate(items):
        if sym(i):
            if not i._sx_is({STR}):
                raise TypeError('sequence item %d: expected str instance, %s found' % (n, i._sx_tname()))
            i._sx_force()
        elif not isinstance(i, str):
            raise TypeError('sequence item %d: expected str instance, %s found' % (n, type(i).__name__))
        if n:
            out.append(sep)
        out.append(i)
    return concat_str(out)


# ---------------------------------------------------------------- dates
class SymDT:
    """A date, time or datetime with (possibly) symbolic components."""
    _sx_model = True
    FIELDS = {datetime.date: ('year', 'month', 'day'),
              datetime.time: ('hour', 'minute', 'second', 'microsecond'),
              datetime.datetime: ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond')}

    def __init__(self, cls, fields, tzinfo=None):
        self._sx_cls = cls
        self._sx_f = dict(fields)
        self._sx_tz = tzinfo

    @property
    def __class__(self):
        return self._sx_cls

    def __getattr__(self, name):
        f = self.__dict__.get('_sx_f', {})
        if name in f:
            return f[name]
        if name in ('tzinfo',) and self._sx_cls is not datetime.date:
            return self._sx_tz
        if name == 'isoformat':
            return self._sx_iso
        if name.startswith('_sx') or not hasattr(self._sx_cls, name):
            raise AttributeError(name)
        return getattr(self._sx_realize(), name)

    def _sx_realize(self):
        """One concrete date of the path, preferably one where every component matters. The path becomes partial."""
        sp = cur()
        f = self._sx_f
        if 'microsecond' in f:
            for c in (iterm(f['microsecond']) % 1000 != 0, iterm(f['second']) != 0):
                if sp.pick(lambda: sp._check(c) == z3.sat):
                    sp.partial.append('date fixed')
                    sp.assume(c)
        v = {k: realize(x) for k, x in f.items()}
        return self._sx_cls(**v) if self._sx_cls is datetime.date else self._sx_cls(**v, tzinfo=self._sx_tz)

    def _sx_iso(self, sep='T', timespec='auto'):
        us = self._sx_f.get('microsecond', 0)
        if timespec not in ('auto', 'microseconds') and self._sx_cls is not datetime.date:
            if timespec not in ('seconds', 'milliseconds'):
                return self._sx_realize().isoformat(timespec=timespec)
            us = 0 if timespec == 'seconds' else mkint(iterm(us) / 1000 * 1000)
        key = ('isoof', id(self), sep, timespec)
        if key not in cur().memo:
            r = opaque_str('ISO')
            f = dict(self._sx_f)
            if 'microsecond' in f:
                f['microsecond'] = us
            cur().memo[('iso', r._sx_z.id.sexpr())] = SymDT(self._sx_cls, f, self._sx_tz)
            cur().memo[key] = (r, self)
        return cur().memo[key][0]

    def _sx_text(self):
        return self._sx_iso(' ') if self._sx_cls is datetime.datetime else self._sx_iso()

    def __eq__(self, o):
        if not isinstance(o, (datetime.date, datetime.time)):
            return NotImplemented
        if self._sx_cls is not o.__class__:
            return False
        return mkbool(z3.And(*[bterm(getattr(self, f) == getattr(o, f)) for f in self._sx_f],
                             z3.BoolVal(self.__class__ is datetime.date or self._sx_tz == o.tzinfo)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mkbool(z3.Not(bterm(r)))

    def __hash__(self):
        return 77

    def __repr__(self):
        return '<%s>' % self._sx_cls.__name__


RANGES = dict(year=(1, 9999), month=(1, 12), hour=(0, 23), minute=(0, 59), second=(0, 59), microsecond=(0, 999999))


def dim(y, m):
    leap = z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))
    return z3.If(m == 2, z3.If(leap, z3.IntVal(29), z3.IntVal(28)),
                 z3.If(z3.Or(m == 4, m == 6, m == 9, m == 11), z3.IntVal(30), z3.IntVal(31)))


def iterm(x):
    if sym(x):
        k = x._sx_force()
        if k == BOOL:
            return z3.If(x._sx_scalar(), z3.IntVal(1), z3.IntVal(0))
        return x._sx_scalar()
    return z3.IntVal(int(x))


def m_date(cls, *args, **kw):
    """datetime.date/time/datetime constructor on symbolic components"""
    sp = cur()
    names = list(SymDT.FIELDS[cls])
    if kw:
        return cls(*[realize(a) for a in args], **{k: realize(v) for k, v in kw.items()})
    tzpos = {datetime.date: None, datetime.time: 4, datetime.datetime: 7}[cls]
    mn = {datetime.date: 3, datetime.time: 0, datetime.datetime: 3}[cls]
    mx = {datetime.date: 3, datetime.time: 5, datetime.datetime: 8}[cls]
    for a in args:
        if sym(a) and a._sx_is({k for k in a._sx_dom if k >= CONST0}):
            return cls(*[realize(a) for a in args])
    if len(args) == 1 and sym(args[0]) and args[0]._sx_is({STR}):
        # a single text argument is the pickle protocol: refused unless it has the exact state length
        raise TypeError('an integer is required')
    if len(args) > mx:
        raise TypeError('function takes %d arguments (%d given)' % (mn, len(args)))
    tz = None
    vals = {}
    for i, a in enumerate(args):
        if tzpos is not None and i == tzpos:
            continue
        if sym(a):
            if not a._sx_is({BOOL, INT}):
                raise TypeError("'%s' object cannot be interpreted as an integer" % a._sx_tname())
            a._sx_force()
        elif not hasattr(a, '__index__'):
            raise TypeError("'%s' object cannot be interpreted as an integer" % type(a).__name__)
        t = iterm(a)
        if sp.branch(z3.Or(t >= 2 ** 31, t < -2 ** 31)):
            raise OverflowError('Python int too large to convert to C int')
        vals[names[i]] = t
    if len(args) < mn:
        raise TypeError('function takes %d arguments (%d given)' % (mn, len(args)))
    for n in names:
        if n not in vals:
            vals[n] = z3.IntVal(0)
        if n in RANGES:
            lo, hi = RANGES[n]
            if not sp.branch(z3.And(vals[n] >= lo, vals[n] <= hi)):
                raise ValueError('%s is out of range' % n)
        elif n == 'day':
            if not sp.branch(z3.And(vals[n] >= 1, vals[n] <= dim(vals['year'], vals['month']))):
                raise ValueError('day is out of range for month')
    if tzpos is not None and len(args) > tzpos:
        a = args[tzpos]
        if sym(a):
            if not a._sx_is({NONE} | {k for k in a._sx_dom if k >= CONST0}):
                raise TypeError('tzinfo argument must be None or of a tzinfo subclass')
            a = realize(a)
        if a is not None and not isinstance(a, datetime.tzinfo):
            raise TypeError('tzinfo argument must be None or of a tzinfo subclass')
        tz = a
    return SymDT(cls, {n: mkint(vals[n], n) for n in names}, tz)


def m_fromiso(cls, x):
    sp = cur()
    if x._sx_is({k for k in x._sx_dom if k >= CONST0}):
        return cls.fromisoformat(realize(x))
    if not x._sx_is({STR}):
        raise TypeError('fromisoformat: argument must be str')
    x._sx_force()
    z = x._sx_scalar()
    d = sp.memo.get(('iso', z.id.sexpr())) if type(z) is strs.Opq else None
    if d is not None:
        if d.__class__ is cls:
            return SymDT(cls, d._sx_f, d._sx_tz)
        raise core.Limit('ISO text of another class')
    c = x._sx_resolve()
    if c is not None:
        return cls.fromisoformat(c)
    # other strings are at most strlen characters over ALPHABET: only hours can be written that way
    if x._sx_spec is None or x._sx_spec.strlen > 3:
        return cls.fromisoformat(realize(x))
    if type(z) is strs.Opq:
        raise ValueError('Invalid isoformat string: %r' % x)
    if cls is datetime.time and type(z) is strs.SStr and len(z.c) >= 2:
        h = (z.c[0] - 48) * 10 + z.c[1] - 48
        dig = [z3.And(c >= 48, c <= 57) for c in z.c[:2]]
        if sp.branch(z3.And(z.n == 2, *dig, h <= 23)):
            return SymDT(cls, dict(hour=mkint(h, 'hour'), minute=0, second=0, microsecond=0))
    raise ValueError('Invalid isoformat string: %r' % x)


class SymTD:
    """timedelta of a symbolic number of 1/Q seconds"""
    _sx_model = True

    def __init__(self, q):
        self._sx_q = q

    @property
    def __class__(self):
        return datetime.timedelta

    def total_seconds(self):
        return mkfloat(self._sx_q, 'seconds')

    days = property(lambda self: mkint(self._sx_q / (86400 * core.Q), 'days'))
    seconds = property(lambda self: mkint(self._sx_q / core.Q % 86400, 'secs'))
    microseconds = property(lambda self: mkint(self._sx_q % core.Q * (core.MICRO // core.Q), 'micros'))

    def __getattr__(self, name):
        if name.startswith('_sx') or not hasattr(datetime.timedelta, name):
            raise AttributeError(name)
        return getattr(self._sx_realize(), name)

    def _sx_realize(self):
        sp = cur()
        q = self._sx_q
        c = q % core.Q != 0
        if sp.pick(lambda: sp._check(c) == z3.sat):
            sp.partial.append('duration fixed')
            sp.assume(c)
        n = realize(mkint(q))
        return datetime.timedelta(seconds=n // core.Q, microseconds=n % core.Q * core.MICRO // core.Q)

    def __truediv__(self, o):
        if o == datetime.timedelta(seconds=1):
            return self.total_seconds()
        return self._sx_realize() / o

    def __floordiv__(self, o):
        return self._sx_realize() // o

    def __mod__(self, o):
        return self._sx_realize() % o

    def __add__(self, o):
        if isinstance(o, datetime.timedelta):
            return SymTD(z3.simplify(self._sx_q + tdunits(o)))
        return self._sx_realize() + o

    def __sub__(self, o):
        if isinstance(o, datetime.timedelta):
            return SymTD(z3.simplify(self._sx_q - tdunits(o)))
        return NotImplemented

    def __lt__(self, o):
        return mkbool(self._sx_q < tdunits(o))

    def __le__(self, o):
        return mkbool(self._sx_q <= tdunits(o))

    def __gt__(self, o):
        return mkbool(self._sx_q > tdunits(o))

    def __ge__(self, o):
        return mkbool(self._sx_q >= tdunits(o))

    def __bool__(self):
        return cur().branch(self._sx_q != 0)

    def _sx_text(self):
        return opaque_str('td')

    def __eq__(self, o):
        if not isinstance(o, datetime.timedelta):
            return NotImplemented
        return mkbool(self._sx_q == (o._sx_q if type(o) is SymTD else tdunits(o, 10 ** 50)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mkbool(z3.Not(bterm(r)))

    def __hash__(self):
        return 78

    def __repr__(self):
        return '<timedelta>'


def tdunits(o, other=None):
    """a timedelta in units of 1/Q seconds"""
    if type(o) is SymTD:
        return o._sx_q
    n = o // datetime.timedelta(microseconds=1) * core.Q
    if n % core.MICRO:
        if other is None:
            raise core.Limit('a duration finer than the resolution')
        return z3.IntVal(other)
    return z3.IntVal(n // core.MICRO)


def m_timedelta(*args, **kw):
    sp = cur()
    names = ['days', 'seconds', 'microseconds']
    vals = dict(zip(names, args))
    vals.update(kw)
    if len(args) > 3 or set(vals) - set(names) or any(sym(a) and a._sx_isconst() for a in vals.values()):
        return datetime.timedelta(*[realize(a) for a in args], **{k: realize(v) for k, v in kw.items()})
    q = z3.IntVal(0)
    for n, mult in (('days', 86400), ('seconds', 1), ('microseconds', 0)):
        a = vals.get(n, 0)
        if sym(a):
            if not a._sx_is({BOOL, INT, FLOAT}):
                raise TypeError('unsupported type for timedelta %s component: %s' % (n, a._sx_tname()))
            k = a._sx_force()
            if k == FLOAT:
                t, qq = a._sx_scalar()
                if sp.branch(t != 0):
                    if sp.branch(t == 1):
                        raise ValueError('cannot convert float NaN to integer')
                    raise OverflowError('cannot convert float infinity to integer')
                u = qq
            else:
                u = iterm(a) * core.Q
        elif isinstance(a, int):
            u = z3.IntVal(int(a) * core.Q)
        elif isinstance(a, float):
            if core.quarters(a) is None:
                return datetime.timedelta(**{k: realize(v) for k, v in vals.items()})
            u = z3.IntVal(core.quarters(a))
        else:
            raise TypeError('unsupported type for timedelta %s component: %s' % (n, type(a).__name__))
        if mult:
            q = q + u * mult
        else:
            u = z3.simplify(u)
            if not sp.branch(u % core.MICRO == 0):
                return datetime.timedelta(**{k: realize(v) for k, v in vals.items()})
            q = q + u / core.MICRO
    lim = 999999999 * 86400 * core.Q
    if sp.branch(z3.Or(q < -lim, q >= lim + 86400 * core.Q)):
        raise OverflowError('days=...; must have magnitude <= 999999999')
    return SymTD(z3.simplify(q))


# ---------------------------------------------------------------- text constructed types
class SymText:
    """Object of a class built from text (Path, Pattern, ...), symbolic text."""
    _sx_model = True

    def __init__(self, cls, text):
        self._sx_cls = cls
        self._sx_t = text

    @property
    def __class__(self):
        return self._sx_cls

    def _sx_text(self):
        if self._sx_cls is re.Pattern:
            return opaque_str('re.compile(')
        return self._sx_t

    @property
    def pattern(self):
        if self._sx_cls is not re.Pattern:
            raise AttributeError('pattern')
        return self._sx_t

    @property
    def flags(self):
        if self._sx_cls is not re.Pattern:
            raise AttributeError('flags')
        return int(re.UNICODE)

    @property
    def _str_normcase(self):
        if not issubclass(self._sx_cls, pathlib.PurePath):
            raise AttributeError('_str_normcase')
        return self._sx_t

    @property
    def _flavour(self):
        if not issubclass(self._sx_cls, pathlib.PurePath):
            raise AttributeError('_flavour')
        return self._sx_cls._flavour

    def __str__(self):
        return '<text>'

    def __eq__(self, o):
        if not isinstance(o, self._sx_cls):
            return NotImplemented
        ot = o._sx_t if type(o) is SymText else o.pattern if self._sx_cls is re.Pattern else str(o)
        return self._sx_t == ot

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else mkbool(z3.Not(bterm(r)))

    def __hash__(self):
        return hash(self._sx_t)

    def __repr__(self):
        return '<%s>' % self._sx_cls.__name__


def m_recompile(x, flags=0):
    if not sym(x) or flags != 0:
        return re.compile(realize(x), flags)
    if x._sx_is({STR}):
        x._sx_force()
        c = x._sx_resolve()
        if c is not None:
            return re.compile(c)
        # other strings (ALPHABET only) contain no metacharacter
        return SymText(re.Pattern, x)
    k = x._sx_force()
    return re.compile(x._sx_const if k >= CONST0 else core.SAMPLE[k])


TEXTTYPES = {pathlib.Path, pathlib.PosixPath, pathlib.PurePath, ipaddress.IPv4Address, ipaddress.IPv6Address, ipaddress.IPv4Network,
             ipaddress.IPv6Network, ipaddress.IPv4Interface, ipaddress.IPv6Interface, uuid.UUID}


def m_texttype(cls, x):
    if x._sx_is({STR}):
        x._sx_force()
        c = x._sx_resolve()
        if c is not None:
            return cls(c)
        if issubclass(cls, pathlib.PurePath):
            sp = cur()
            if sp.branch(x._sx_streq('')):
                return cls('')
            return SymText(pathlib.PosixPath, x)
        # strings over ALPHABET with at most 3 characters are refused by all of them
        if x._sx_spec is None or x._sx_spec.strlen > 3:
            return cls(realize(x))
        return cls('zzz')
    k = x._sx_force()
    if k >= CONST0:
        return cls(x._sx_const)
    if k in (BOOL, INT):
        if cls.__module__ == 'ipaddress':
            cur().branch(z3.And(iterm(x) >= 0, iterm(x) < 2 ** (32 if '4' in cls.__name__ else 128)))
        return cls(realize(x))
    return cls(core.SAMPLE[k])         # refused whatever the content


# ---------------------------------------------------------------- the hooks
# builtins that treat their arguments generically through the protocols Sym implements
GENERIC = {list, tuple, set, frozenset, dict, zip, map, filter, enumerate, iter, next, reversed, sum, any, all, min,
           max, len, print, id, callable, sorted, slice, property, super, object, staticmethod, classmethod, hash,
           itertools.compress, itertools.repeat, itertools.count, itertools.chain, itertools.islice,
           itertools.starmap, itertools.takewhile, itertools.dropwhile, itertools.zip_longest, itertools.tee,
           itertools.product, itertools.accumulate, functools.reduce, functools.partial, itertools.cycle,
           itertools.filterfalse, itertools.groupby, itertools.pairwise, itertools.chain.from_iterable,
           operator.itemgetter, operator.eq, operator.is_, operator.getitem, operator.contains}

MODELS = {
    type: m_type, isinstance: m_isinstance, int: m_int, float: m_float, str: m_str, bool: m_bool, repr: m_repr,
    hasattr: m_hasattr, getattr: m_getattr, setattr: m_setattr, callable: m_callable, re.compile: m_recompile,
    datetime.timedelta: m_timedelta, round: m_round,
}
for _c in (datetime.date, datetime.time, datetime.datetime):
    MODELS[_c] = functools.partial(m_date, _c)
for _c in TEXTTYPES:
    MODELS[_c] = functools.partial(m_texttype, _c)


def is_symbolic(x):
    t = type(x)
    return t is Sym or t is SymBool or getattr(t, '_sx_model', False)


def call(f, /, *args, **kw):
    """Every call of instrumented code goes through here."""
    if core.CUR is None:
        return f(*args, **kw)
    symargs = False
    for a in args:
        if is_symbolic(a):
            symargs = True
            break
    else:
        for a in kw.values():
            if is_symbolic(a):
                symargs = True
                break
    if not symargs:
        if (f is str or f is repr) and len(args) == 1:
            if f is str and isinstance(args[0], BaseException):
                return m_str(*args)
            if not isinstance(args[0], (str, type)) and hassym(args[0]):
                return textof(args[0])
        if type(f) is types.BuiltinMethodType and f.__name__ == 'join' and isinstance(f.__self__, str) and args:
            return m_join(f.__self__, args[0])
        if type(f) is types.BuiltinMethodType and f.__name__ == 'format' and isinstance(f.__self__, str):
            return m_format(f.__self__, args, kw)
        if type(f) is Sym:
            raise TypeError("'%s' object is not callable" % f._sx_tname())
        if f in _DATES and args and False:
            pass
        return f(*args, **kw)
    t = type(f)
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(*args, **kw)
    if t is types.FunctionType or t is types.MethodType:
        return f(*args, **kw)
    if t is types.BuiltinMethodType or t is types.BuiltinFunctionType or t is types.MethodWrapperType:
        self_ = getattr(f, '__self__', None)
        n = f.__name__
        if isinstance(self_, type) and n == 'fromisoformat':
            return m_fromiso(self_, *args)
        if isinstance(self_, type) and n == '__new__':
            return f(*args, **kw)
        if isinstance(self_, str) and type(self_) is not Sym:
            if n == 'join':
                return m_join(self_, args[0])
            if n == 'format':
                return m_format(self_, args, kw)
            if n in ('startswith', 'endswith') and sym(args[0]) and args[0]._sx_is({STR}):
                fn = z3.PrefixOf if n == 'startswith' else z3.SuffixOf
                return mkbool(fn(strterm(args[0]), sv(self_)))
            return f(*[realize(a) for a in args], **{k: realize(v) for k, v in kw.items()})
        if isinstance(self_, (list, dict, set, frozenset, tuple)) or f in GENERIC:
            return f(*args, **kw)
        if n in ('index', '__init__', '__new__', '__setattr__', '__getattribute__', 'add', 'append', 'get', 'setdefault'):
            return f(*args, **kw)
        return f(*[realize(a) for a in args], **{k: realize(v) for k, v in kw.items()})
    if isinstance(f, type):
        if f in GENERIC or issubclass(f, BaseException):
            return f(*args, **kw)
        if type(f) is enum.EnumType and len(args) == 1 and sym(args[0]) and args[0]._sx_where(lambda t: t is f):
            return realize(args[0])
        if f.__flags__ & (1 << 9) or '__init__' in f.__dict__ or '__new__' in f.__dict__:
            return f(*args, **kw)          # Python level class
        return f(*[realize(a) for a in args], **{k: realize(v) for k, v in kw.items()})
    try:
        if f in GENERIC:
            return f(*args, **kw)
    except TypeError:
        pass
    if type(f) is Sym:
        raise TypeError("'%s' object is not callable" % f._sx_tname())
    return f(*args, **kw)


_DATES = frozenset((datetime.date, datetime.time, datetime.datetime))


def callkw(f, args, kwparts):
    """f(*args, **kw) with keyword names that may be symbolic strings"""
    kw = {}
    for p in kwparts:
        if isinstance(p, tuple):
            items = [p]
        else:
            items = [(k, p[k]) for k in p.keys()]
        for k, v in items:
            if sym(k) and k._sx_isconst():
                k = k._sx_const
            if sym(k):
                if not k._sx_is({STR}):
                    raise TypeError('keywords must be strings')
                k = fixname(k)
            elif not isinstance(k, str):
                raise TypeError('keywords must be strings')
            if k in kw:
                raise TypeError('got multiple values for keyword argument %r' % k)
            kw[k] = v
    return call(f, *args, **kw)


def is_(a, b):
    if core.CUR is not None:
        if type(a) is not Sym and type(b) is Sym:
            a, b = b, a
        if type(a) is Sym:
            if type(b) is Sym:
                if a is b:
                    return True
                if a._sx_is({NONE}) and b._sx_is({NONE}):
                    return True
                if a._sx_kind == BOOL and b._sx_kind == BOOL:
                    return a == b
                return False
            if b is None:
                return a._sx_is({NONE}) or (a._sx_isconst() and a._sx_const is None)
            if b is True or b is False:
                return a == b if a._sx_is({BOOL}) else False
            if b is a._sx_pay and b is not None:
                return True
            if a._sx_isconst():
                return a._sx_const is b
            return False
        if type(a) is SymBool or type(b) is SymBool:
            if isinstance(a, bool) and isinstance(b, bool):
                return bool(a) is bool(b)
    return a is b


def isnot(a, b):
    r = is_(a, b)
    return not r
