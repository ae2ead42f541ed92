"""Pieces shared by the harnesses."""
import catalog
from catalog import T
from sx.core import (Spec, Fresh, NONE, BOOL, INT, FLOAT, STR, LIST, DICT, TUPLE, SET, NS)
from . import spec

JSON = (NONE, BOOL, INT, FLOAT, STR, LIST, DICT)
SCALAR = (NONE, BOOL, INT, FLOAT, STR)


class Out:
    """outcome of an operation"""
    def __init__(self, ok, value):
        self.ok = ok
        self.value = value
        self.error = None if ok else value

    def kind(self):
        return 'ok' if self.ok else type(self.value).__name__


def attempt(f, *a, **k):
    try:
        return Out(True, f(*a, **k))
    except Exception as e:
        return Out(False, e)


def typed(S, e):
    return isinstance(e, S.tl.exceptions.TypedloadException)


def pools(S, t, strs=(), nums=(), extra=True):
    s, n = catalog.consts(t)
    S.pool(list(s) + list(strs), list(n) + list(nums))
    if extra:
        import srcconsts
        S.pool(srcconsts.NEW_STR, srcconsts.NEW_NUM)


def loader(S, **kw):
    return S.tl.dataloader.Loader(**kw)


def dumper(S, **kw):
    return S.tl.datadumper.Dumper(**kw)


def rec(S, label, o):
    """records an outcome for the comparison of the symbolic path with the real run"""
    S.record(label, (o.kind(), o.value if o.ok else None))


# ---------------------------------------------------------------- unusual values
import collections
import enum
import datetime
import decimal
import fractions
import types


class MyStr(str):
    pass


class MyInt(int):
    pass


class MyFloat(float):
    pass


class MyList(list):
    pass


class MyDict(dict):
    pass


SUBS = (MyStr('a'), MyStr('5'), MyInt(5), MyFloat(1.5), catalog.INum.ONE)
ODD = (b'x', b'5', 10 ** 5000, 1e300, 0.1, complex(1, 2), frozenset(), frozenset({1}), range(3), object(), int, len,
       decimal.Decimal('1.5'), fractions.Fraction(1, 3), datetime.date(2020, 1, 1), datetime.timedelta(1), catalog.NT(1, 'x'),
       catalog.DC(1), catalog.Colour.RED, types.MappingProxyType({'a': 1}), ..., '\ud800', 'a\x00b',
       Fresh(lambda: bytearray(b'1')), Fresh(lambda: (i for i in (1, 2))), Fresh(lambda: iter(())),
       Fresh(lambda: {'a': 1}.items()), Fresh(lambda: collections.deque((1, 2))), Fresh(lambda: collections.UserDict(a=1)),
       Fresh(lambda: MyDict(a=1)), Fresh(lambda: MyList((1, 2))), Fresh(lambda: memoryview(b'ab'))) + SUBS
ALLKINDS = JSON + (TUPLE, SET, NS)
KEYKINDS = (STR, INT, NONE, FLOAT, BOOL)
