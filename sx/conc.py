"""Turning symbolic values into concrete ones under a model, and comparing outcomes."""
import argparse
import dataclasses
import datetime
import enum
import re

import z3

from . import core
from .core import (Sym, SymBool, NONE, BOOL, INT, FLOAT, STR, LIST, DICT, TUPLE, SET, NS, CONST0, PYTYPE, unescape)


class Opaque:
    """text that is not modelled: equal to any text"""
    def __repr__(self):
        return '<opaque text>'


OPAQUE = Opaque()


def pick_kind(s, model):
    if s._sx_kind is not None:
        return s._sx_kind
    v = model.eval(s._sx_kv, model_completion=True).as_long()
    return v if v in s._sx_dom else s._sx_dom[0]


def concretize(s, model, original=True, memo=None):
    """The concrete Python value of a symbolic input (its content when it was created, if original)."""
    if memo is None:
        memo = {}
    if type(s) is SymBool:
        return z3.is_true(model.eval(s.t, model_completion=True))
    if type(s) is not Sym:
        if getattr(type(s), '_sx_model', False):
            return conc_model(s, model, memo)
        return conc_plain(s, model, memo)
    if id(s) in memo:
        return memo[id(s)][0]
    k = pick_kind(s, model)
    ev = lambda t: model.eval(t, model_completion=True)
    if k >= CONST0:
        v = s._sx_spec.consts[k - CONST0] if s._sx_const is None else s._sx_const
        if type(v) is core.Fresh:
            v = v.make()
    elif k == NONE:
        v = None
    elif k in (BOOL, INT, FLOAT, STR):
        v = conc_scalar(s, k, ev, model)
    else:
        items = s._sx_orig
        if items is None:
            items = []
            if k in (LIST, TUPLE, SET, DICT, NS) and s._sx_spec is not None and s._sx_spec.depth > 0:
                # content never looked at: any allowed content will do
                items = []
        if k in (DICT, NS):
            d = {concretize(a, model, original, memo) if type(a) is Sym else a: concretize(b, model, original, memo)
                 for a, b in items}
            v = argparse.Namespace(**d) if k == NS else d
        else:
            v = PYTYPE[k](concretize(i, model, original, memo) for i in items)
    memo[id(s)] = (v, s)
    return v


def conc_scalar(s, k, ev, model):
    z = s._sx_z
    if z is None:
        # never looked at
        n = s._sx_name
        return {BOOL: False, INT: 7, FLOAT: 0.5, STR: 'x'}[k]
    if k == BOOL:
        return z3.is_true(ev(z))
    if k == INT:
        return ev(z).as_long()
    if k == FLOAT:
        t = ev(z[0]).as_long()
        if t:
            return [None, float('nan'), float('inf'), float('-inf')][t]
        return ev(z[1]).as_long() / core.Q
    if isinstance(s._sx_hash, tuple):
        return s._sx_hash[1]
    if core.isopaque(s):
        return OPAQUE
    return core.strs.text(z, model)


def conc_model(s, model, memo):
    from . import models
    if type(s) is models.SymDT:
        f = {k: concretize(v, model, True, memo) for k, v in s._sx_f.items()}
        try:
            return s._sx_cls(**f) if s._sx_cls is datetime.date else s._sx_cls(**f, tzinfo=s._sx_tz)
        except ValueError:
            return ('invalid', s._sx_cls.__name__, f)
    if type(s) is models.SymTD:
        q = model.eval(s._sx_q, model_completion=True).as_long()
        return datetime.timedelta(seconds=q // core.Q, microseconds=(q % core.Q) * 1000000 // core.Q)
    if type(s) is models.SymText:
        t = concretize(s._sx_t, model, True, memo)
        if t is OPAQUE:
            return OPAQUE
        return re.compile(t) if s._sx_cls is re.Pattern else s._sx_cls(t)
    raise core.Limit('cannot concretize %r' % type(s))


def conc_plain(x, model, memo):
    """Concrete containers and objects with symbolic parts."""
    t = type(x)
    if t in (list, tuple, set, frozenset):
        return t(concretize(i, model, True, memo) for i in x)
    if t is dict:
        return {concretize(k, model, True, memo): concretize(v, model, True, memo) for k, v in x.items()}
    return x


# ---------------------------------------------------------------- descriptions of outcomes
ADDR = re.compile('0x[0-9a-f]{6,}')


def describe(x, model=None, memo=None, depth=0):
    """A comparable description of a value; symbolic parts are evaluated in the model."""
    if memo is None:
        memo = {}
    if depth > 40:
        return ('deep',)
    d = lambda v: describe(v, model, memo, depth + 1)
    if type(x) is Sym:
        k = pick_kind(x, model)
        if k in (LIST, DICT, TUPLE, SET, NS) and x._sx_pay is not None:
            return d(x._sx_pay)
        x = concretize(x, model, memo=memo)
    elif type(x) is SymBool or getattr(type(x), '_sx_model', False):
        x = concretize(x, model, memo=memo)
    t = type(x)
    if x is OPAQUE:
        return ('opaque',)
    if t is float:
        return ('float', repr(x + 0.0))       # no distinction of -0.0
    if t is int and x.bit_length() > 10000:
        return ('int', x.bit_length(), hash(x))
    if t in (int, bool, str, bytes, type(None)):
        return (t.__name__, ADDR.sub('0x', repr(x)) if t is str else repr(x))
    for b in (int, float, str):
        if isinstance(x, b) and not isinstance(x, enum.Enum):
            return (t.__name__, b.__repr__(x))
    if t in (list, tuple):
        return (t.__name__, [d(i) for i in x])
    if t in (set, frozenset):
        return (t.__name__, sorted((d(i) for i in x), key=repr))
    if t is dict:
        return ('dict', [(d(k), d(v)) for k, v in x.items()])
    if isinstance(x, tuple) and hasattr(t, '_fields'):
        return (t.__name__, [(f, d(getattr(x, f))) for f in t._fields])
    if isinstance(x, enum.Enum):
        return ('enum', t.__name__, x.name)
    if isinstance(x, type):
        return ('type', getattr(x, '__qualname__', str(x)))
    if dataclasses.is_dataclass(t):
        return (t.__name__, [(f.name, d(getattr(x, f.name, '<unset>'))) for f in dataclasses.fields(t)])
    if hasattr(t, '__attrs_attrs__'):
        return (t.__name__, [(a.name, d(getattr(x, a.name, '<unset>'))) for a in t.__attrs_attrs__])
    if hasattr(t, '_sx_fields'):
        return (t.__name__, [(f, d(getattr(x, f, '<unset>'))) for f in t._sx_fields])
    if isinstance(x, BaseException):
        return ('exc', t.__name__)
    if isinstance(x, argparse.Namespace):
        return ('Namespace', [(k, d(v)) for k, v in x.__dict__.items()])
    if isinstance(x, re.Pattern):
        return ('Pattern', repr(x.pattern))
    if hasattr(x, '__dict__') and not isinstance(x, type) and t.__module__.startswith('harness'):
        return (t.__name__, sorted((k, d(v)) for k, v in x.__dict__.items()))
    return (t.__name__, ADDR.sub('0x', str(x)) if t.__str__ is not object.__str__ else '')


def agree(a, b):
    """Do two descriptions agree? Opaque text agrees with any text."""
    if isinstance(a, tuple) and a and a[0] == 'opaque':
        return isinstance(b, tuple) and b[0] in ('str', 'opaque', 'Pattern', 'PosixPath')
    if isinstance(a, (list, tuple)):
        if a and a[0] == 'dict' and 'opaque' in repr(a):
            return b[0] == 'dict'
        if type(a) is not type(b) or len(a) != len(b):
            return False
        if a and a[0] in ('set', 'frozenset') and 'opaque' in repr(a):
            return a[0] == b[0]
        return all(agree(x, y) for x, y in zip(a, b))
    return a == b


def bigset(e):
    """does an encoded input or description hold a set of several elements?"""
    if isinstance(e, dict):
        return any(bigset(i) for i in e.values())
    if isinstance(e, (list, tuple)):
        if len(e) == 2 and e[0] in ('set', 'frozenset') and len(e[1]) > 1:
            return True
        return any(bigset(i) for i in e)
    return False
