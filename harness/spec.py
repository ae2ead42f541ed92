"""
Reference semantics. Written from the documentation, independent of how typedload works: what conforms to a type
(`conf`), whether a value is acceptable for a type (`accepts`: YES, NO or MAYBE where both answers are right), and
whether a loaded value is a right result (`allowed`).  Runs on symbolic and on concrete values.
"""
import argparse
import datetime
import enum
import pathlib
import re
import types
import typing

import catalog
from catalog import BASICS, REQUIRED, fields, objkind, resolve, NoneType

NO, YES, MAYBE = 0, 1, 2
BASIC = {int, bool, float, str, NoneType}
DATES = {datetime.date, datetime.time, datetime.datetime}
STRCONS = {catalog.TYPES[n] for n in ('Path', 'IPv4', 'IPv6', 'IPv4Net', 'IPv6Net', 'IPv4If', 'IPv6If', 'UUID')}
TEXT = STRCONS | {pathlib.PosixPath, pathlib.PurePosixPath}


class Cfg:
    def __init__(self, cast=True, failonextra=False, key='name', dicteq=True, loose=False, known=None, over=None, texts=()):
        self.cast, self.failonextra, self.key, self.dicteq = cast, failonextra, key, dicteq
        self.texts = texts              # more types made from text
        self.over = over                # custom handlers: type -> Handler or None
        self.known = known              # the names that can be resolved; None: all
        self.loose = loose              # compare with == only


def isunion(t):
    return typing.get_origin(t) is typing.Union or isinstance(t, types.UnionType)


def isbasic(t):
    try:
        return t in BASIC
    except TypeError:
        return False


def conv(f, *a):
    """(True, f(*a)) or (False, exception)"""
    try:
        return True, f(*a)
    except Exception as e:
        return False, e


def same(a, b):
    """equal, of exactly the same types at every depth, dictionaries in the same order"""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is not tb:
        return False
    if ta is float:
        if a == b:
            return True
        return a != a and b != b
    if ta in (int, bool, str, bytes, NoneType):
        return a == b
    if ta in (list, tuple):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not same(x, y):
                return False
        return True
    if ta in (set, frozenset):
        if len(a) != len(b):
            return False
        for x in a:
            for y in b:
                if same(x, y):
                    break
            else:
                return False
        return True
    if ta is dict:
        if len(a) != len(b):
            return False
        for (k, v), (l, w) in zip(a.items(), b.items()):
            if not same(k, l) or not same(v, w):
                return False
        return True
    if objkind(ta):
        for f in fields(ta):
            if not same(getattr(a, f.name, None), getattr(b, f.name, None)):
                return False
        return True
    if ta is argparse.Namespace:
        return same(a.__dict__, b.__dict__)
    return a == b


def equal(a, b):
    """equality as a user sees it, with the same classes"""
    if type(a) is not type(b):
        return False
    return a == b


# ---------------------------------------------------------------- conformance
def conf(r, t):
    t = resolve(t)
    if t is typing.Any:
        return True
    if isbasic(t):
        return r is None if t is NoneType else isinstance(r, t)
    o = typing.get_origin(t)
    if isunion(t):
        for m in t.__args__:
            if conf(r, m):
                return True
        return False
    if o is typing.Literal:
        for a in t.__args__:
            if r == a:
                return True
        return False
    if o in (list, set, frozenset):
        if type(r) is not o:
            return False
        for i in r:
            if not conf(i, t.__args__[0]):
                return False
        return True
    if o is tuple:
        if type(r) is not tuple:
            return False
        args = t.__args__
        if len(args) == 2 and args[1] is ...:
            for i in r:
                if not conf(i, args[0]):
                    return False
            return True
        if len(r) != len(args):
            return False
        for i, a in zip(r, args):
            if not conf(i, a):
                return False
        return True
    if o is dict:
        if type(r) is not dict:
            return False
        for k, v in r.items():
            if not conf(k, t.__args__[0]) or not conf(v, t.__args__[1]):
                return False
        return True
    k = objkind(t)
    if k == 'td':
        if type(r) is not dict:
            return False
        fs = {f.name: f for f in fields(t)}
        for f in fields(t):
            if f.required and f.name not in r:
                return False
        for key in r:
            if not isinstance(key, str) or key not in fs or not conf(r[key], fs[key].type):
                return False
        return True
    if k:
        if type(r) is not t:
            return False
        for f in fields(t):
            if not hasattr(r, f.name):
                return False
            if not conf(getattr(r, f.name), f.type):
                return False
        return True
    if isinstance(t, typing.NewType):
        return conf(r, t.__supertype__)
    if t is re.Pattern or o is re.Pattern:
        if not isinstance(r, re.Pattern):
            return False
        return isinstance(r.pattern, t.__args__[0]) if o is re.Pattern else True
    if t is datetime.date:
        return type(r) is datetime.date
    return isinstance(r, t)


# ---------------------------------------------------------------- acceptance
def accepts(v, t, c, inner=False):
    if c.known is not None and isinstance(t, typing.ForwardRef) and t.__forward_arg__ not in c.known:
        return NO
    if c.over is not None:
        h = c.over(t) or c.over(resolve(t))
        if h is not None:
            return NO if h.fails else YES
    t = resolve(t)
    if t is catalog.Nothing:
        return NO
    if t is typing.Any:
        return YES
    if isbasic(t):
        return acc_basic(v, t, c)
    o = typing.get_origin(t)
    if isunion(t):
        return acc_union(v, t, c)
    if o is typing.Literal:
        for a in t.__args__:
            if v == a:
                return YES
        return NO
    if o in (list, set, frozenset) or o is tuple:
        return acc_iter(v, t, o, c)
    if o is dict:
        m = mapping(v, c)
        if m is None:
            return NO
        kt, vt = t.__args__
        res = YES
        for k, w in m:
            for x, xt in ((k, kt), (w, vt)):
                a = accepts(x, xt, c, True)
                if a == NO:
                    return NO
                if a == MAYBE:
                    res = MAYBE
            if not hashableload(k, kt, c):
                return NO
        return res
    if objkind(t):
        return acc_obj(v, t, c)
    if isinstance(t, typing.NewType):
        return accepts(v, t.__supertype__, c)
    if isinstance(t, type) and issubclass(t, enum.Enum):
        for m in t:
            if v is m or v == m.value:
                return YES
        l, res = loosen(c), NO
        for an in typing.get_type_hints(t).values():
            a = accepts(v, an, c)
            if a != NO:
                for m in t:
                    if a == YES and allowed(v, an, c, m.value):
                        return YES
                    if allowed(v, an, l, m.value):
                        res = MAYBE
        return res
    if t is re.Pattern or o is re.Pattern:
        if o is re.Pattern and type(v) is not t.__args__[0]:
            return NO
        return YES if conv(re.compile, v)[0] else NO
    if t is catalog.MyText and t not in c.texts:
        return NO
    return YES if construct(v, t)[0] else NO


def construct(v, t):
    """what the standard constructor makes of a value"""
    if t in DATES:
        if isinstance(v, str):
            return conv(t.fromisoformat, v)
        if not hasattr(v, '__iter__'):
            return False, None
        return conv(t, *v)
    if t is datetime.timedelta:
        return conv(t, 0, v)
    return conv(t, v)


def acc_basic(v, t, c):
    if t is NoneType:
        return YES if v is None else NO
    if type(v) is t:
        return YES
    if c.cast:
        return YES if conv(t, v)[0] else NO
    return MAYBE if isinstance(v, t) else NO


def acc_union(v, t, c):
    args = t.__args__
    if type(v) in BASIC and type(v) in args:
        return YES
    res = NO
    for m in args:
        a = accepts(v, m, c)
        if a == YES:
            return YES
        if a == MAYBE:
            res = MAYBE
    return res


def items(v):
    """the items of an iterable, or None"""
    if isinstance(v, dict) or not hasattr(v, '__iter__'):
        return None
    return list(v)


def hashableload(x, t, c):
    """is the loaded form of x hashable?"""
    if c.over is not None and (c.over(t) or c.over(resolve(t))) is not None:
        return True
    t = resolve(t)
    if t is typing.Any:
        return hashable(x)
    o = typing.get_origin(t)
    if o in (list, set, dict):
        return False
    if isinstance(t, type) and objkind(t):
        if objkind(t) == 'td':
            return False
        return t.__hash__ is not None
    if isunion(t):
        return True         # not used in the catalogue with unhashable members
    if o is tuple and not isinstance(x, dict) and hasattr(x, '__iter__'):
        args = t.__args__
        if len(args) == 2 and args[1] is ...:
            for i in x:
                if not hashableload(i, args[0], c):
                    return False
        else:
            for i, a in zip(x, args):
                if not hashableload(i, a, c):
                    return False
    return True


def hashable(x):
    if type(x) in (list, dict, set):
        return False
    if type(x) is tuple:
        for i in x:
            if not hashable(i):
                return False
    return True


def acc_iter(v, t, o, c):
    args = t.__args__
    if o is tuple and not (len(args) == 2 and args[1] is ...):
        if isinstance(v, dict) or not hasattr(v, '__len__') or not hasattr(v, '__iter__'):
            return NO
        it = list(v)
        if len(it) < len(args) or (len(it) > len(args) and c.failonextra):
            return NO
        types_ = args
    else:
        it = items(v)
        if it is None:
            return NO
        types_ = [args[0]] * len(it)
    res = YES
    for i, a in zip(it, types_):
        x = accepts(i, a, c, True)
        if x == NO:
            return NO
        if x == MAYBE:
            res = MAYBE
        if o in (set, frozenset) and not hashableload(i, a, c):
            return NO
    return res


def mapping(v, c):
    """the pairs of something that counts as a dictionary, or None"""
    if isinstance(v, dict):
        return list(v.items())
    if c.dicteq and isinstance(v, argparse.Namespace):
        return list(v.__dict__.items())
    return None


def objview(v, t, c):
    """(field -> value in the data, extra keys), or None"""
    m = mapping(v, c)
    if m is None:
        return None
    names = {}
    for f in fields(t):
        if f.init:
            names[f.ext(c.key) if objkind(t) in ('dc', 'at') else f.name] = f
    present, extra = {}, []
    for k, w in m:
        if isinstance(k, str) and k in names:
            present[names[k].name] = w
        else:
            extra.append(k)
    return present, extra


def acc_obj(v, t, c):
    d = objview(v, t, c)
    if d is None:
        return NO
    present, extra = d
    if len(extra) and c.failonextra:
        return NO
    res = YES
    for f in fields(t):
        if f.name in present:
            a = accepts(present[f.name], f.type, c)
            if a == NO:
                return NO
            if a == MAYBE:
                res = MAYBE
        elif f.required:
            return NO
    return res


# ---------------------------------------------------------------- results
def eq(c, a, b):
    return bool(a == b) or same(a, b) if c.loose else same(a, b)


def allowed(v, t, c, r, inner=False):
    """Is r a right result of loading v into t? (v is acceptable)"""
    if c.over is not None:
        h = c.over(t) or c.over(resolve(t))
        if h is not None:
            return h.made(r, v)
    t = resolve(t)
    if t is typing.Any:
        return eq(c, v, r)
    if isbasic(t):
        if t is NoneType:
            return r is None
        if type(v) is t:
            return eq(c, v, r)
        if isinstance(v, t) and (inner or not c.cast) and eq(c, v, r):
            return True
        if not c.cast:
            return False
        ok, x = conv(t, v)
        return ok and eq(c, x, r)
    o = typing.get_origin(t)
    if isunion(t):
        return allowed_union(v, t, c, r)
    if o is typing.Literal:
        return eq(c, v, r)
    if o in (list, tuple):
        if type(r) is not o:
            return False
        it = list(v)
        args = t.__args__
        if o is tuple and not (len(args) == 2 and args[1] is ...):
            if len(r) != len(args):
                return False
            pairs = list(zip(it, args))
        else:
            if len(r) != len(it):
                return False
            pairs = [(i, args[0]) for i in it]
        for (i, a), x in zip(pairs, r):
            if not allowed(i, a, c, x, True):
                return False
        return True
    if o in (set, frozenset):
        if type(r) is not o:
            return False
        it = list(v)
        # every loaded item is in the result, every element of the result comes from an item
        for i in it:
            for x in r:
                if allowed_eq(i, t.__args__[0], c, x):
                    break
            else:
                return False
        for x in r:
            for i in it:
                if allowed(i, t.__args__[0], c, x, True):
                    break
            else:
                return False
        return True
    if o is dict:
        if type(r) is not dict:
            return False
        return allowed_dict(mapping(v, c), t.__args__, c, r)
    k = objkind(t)
    if k:
        return allowed_obj(v, t, k, c, r)
    if isinstance(t, typing.NewType):
        return allowed(v, t.__supertype__, c, r, inner)
    if isinstance(t, type) and issubclass(t, enum.Enum):
        if type(r) is not t:
            return False
        for m in t:
            if v is m or v == m.value:
                return r is m
        for an in typing.get_type_hints(t).values():
            if accepts(v, an, c) != NO and allowed(v, an, loosen(c), r.value):
                return True
        return False
    if t is re.Pattern or o is re.Pattern:
        return isinstance(r, re.Pattern) and eq(c, r.pattern, v)
    ok, x = construct(v, t)
    if t in STRCONS:
        if ok and isinstance(x, pathlib.PurePath):
            return type(r) is type(x) and str(r) == str(x)
        return ok and type(r) is type(x) and r == x
    return ok and eq(c, x, r)


def loosen(c):
    return Cfg(c.cast, c.failonextra, c.key, c.dicteq, True, c.known, c.over, c.texts)


def allowed_eq(i, t, c, x):
    """x is, or equals, the loaded form of i (sets and dictionaries collapse equal elements)"""
    if c.loose:
        return allowed(i, t, c, x, True)
    return allowed(i, t, loosen(c), x, True)


def allowed_dict(pairs, args, c, r):
    kt, vt = args
    if isbasic(kt) or kt is typing.Any or isunion(kt) or len(pairs) <= 1:
        # in order; a later key that loads to an equal one replaces the value, keeping the place
        res = list(r.items())
        if len(res) == len(pairs):
            for (k, v), (a, b) in zip(pairs, res):
                if not allowed(k, kt, c, a, True) or not allowed(v, vt, c, b, True):
                    return False
            return True
    # collapsed keys: every pair's key is there, the last value for it wins
    for a, b in r.items():
        last = None
        for k, v in pairs:
            if allowed_eq(k, kt, c, a):
                last = (k, v)
        if last is None or not allowed(last[1], vt, c, b, True):
            return False
    for k, v in pairs:
        for a in r:
            if allowed_eq(k, kt, c, a):
                break
        else:
            return False
    return len(r) <= len(pairs)


def allowed_obj(v, t, k, c, r):
    present, extra = objview(v, t, c)
    if k == 'td':
        if type(r) is not dict or len(r) != len(present):
            return False
        for n, w in present.items():
            if n not in r:
                return False
        get = lambda n: r[n]
    else:
        if type(r) is not t:
            return False
        get = lambda n: getattr(r, n)
    for f in fields(t):
        if f.name in present:
            if not allowed(present[f.name], f.type, c, get(f.name)):
                return False
        elif k != 'td':
            if f.has_default() and not same(get(f.name), f.make_default()):
                return False
    return True


def allowed_union(v, t, c, r):
    args = t.__args__
    if type(v) in BASIC and type(v) in args:
        return eq(c, v, r)
    sure, cand = False, []
    for m in args:
        if not isbasic(m):
            a = accepts(v, m, c)
            if a == YES:
                sure = True
            if a != NO:
                cand.append(m)
    if not sure:
        for m in args:
            if isbasic(m) and accepts(v, m, c) != NO:
                cand.append(m)
    for m in cand:
        if allowed(v, m, c, r):
            return True
    return False


# ---------------------------------------------------------------- dumps
class DCfg:
    def __init__(self, hide=True, iso=False, key='name', over=None):
        self.hide, self.iso, self.key = hide, iso, key
        self.over = over                # custom handlers: value -> Handler or None


def dumpfields(v, c):
    """the fields that belong in the dump of an object: external name -> value"""
    r = {}
    for f in fields(type(v)):
        if not f.dump:
            continue
        x = getattr(v, f.name)
        if c.hide and f.has_default() and f.make_default(v) == x:
            continue
        r[f.ext(c.key)] = x
    return r


def isdump(d, v, c):
    """Is d a right dump of v?"""
    if c.over is not None:
        h = c.over(v)
        if h is not None:
            return not h.fails and h.made(d, v)
    t = type(v)
    if t in BASIC:
        return same(d, v)
    if isinstance(v, enum.Enum):
        return isdump(d, v.value, c)
    k = objkind(t)
    if k:
        if type(d) is not dict:
            return False
        want = dumpfields(v, c)
        if len(d) != len(want):
            return False
        for n, x in want.items():
            if n not in d or not isdump(d[n], x, c):
                return False
        return True
    if t in (list, tuple):
        if type(d) is not list or len(d) != len(v):
            return False
        for a, b in zip(d, v):
            if not isdump(a, b, c):
                return False
        return True
    if t in (set, frozenset):
        if type(d) is not list or len(d) != len(v):
            return False
        left = list(d)
        for x in v:
            for i in range(len(left)):
                if isdump(left[i], x, c):
                    del left[i]
                    break
            else:
                return False
        return True
    if t is dict:
        if type(d) is not dict or len(d) != len(v):
            return False
        for (a, b), (x, y) in zip(d.items(), v.items()):
            if not isdump(a, x, c) or not isdump(b, y, c):
                return False
        return True
    if isinstance(v, (datetime.date, datetime.time)):
        if c.iso:
            return type(d) is str and d == v.isoformat()
        if t is datetime.date:
            w = [v.year, v.month, v.day]
        elif t is datetime.time:
            w = [v.hour, v.minute, v.second, v.microsecond]
        else:
            w = [v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond]
        return same(d, w)
    if isinstance(v, datetime.timedelta):
        return type(d) is float and d == v.total_seconds()
    if isinstance(v, re.Pattern):
        return same(d, v.pattern)
    return type(d) is str and d == str(v)


def plain(d):
    """only basic values (bytes for patterns), lists and dictionaries"""
    t = type(d)
    if t in BASIC or t is bytes:
        return True
    if t is list:
        for i in d:
            if not plain(i):
                return False
        return True
    if t is dict:
        for k, v in d.items():
            if not plain(k) or not plain(v):
                return False
        return True
    return False
