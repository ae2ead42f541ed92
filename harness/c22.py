"""C22: dates and durations survive and are range-checked."""
import datetime
import warnings

from .loads import *

BOUNDS = dict(lists='lists and tuples of 0-9 components, each of any kind and size (int: |i| <= 2^53 and +-10^400; constants: tzinfo objects, an int subclass, huge ints), at most one (thorough: two) components off their range at '
              'a time in the longer ones (up to three: two, thorough three)', text='the ISO texts of symbolic dates, 19 constants, any text of up to 3 characters', durations='every number of microseconds up to about 127 years, every int, nan, infinities',
              zones='UTC, fixed offsets', options='basiccast, failonextra, isodates symbolic', nested='in lists, dictionaries, objects, unions')
UTC, EAST = datetime.timezone.utc, datetime.timezone(datetime.timedelta(hours=5, minutes=30))
SIZES = {'date': (3, 3), 'time': (0, 5), 'datetime': (3, 8)}
RANGE = dict(year=(1, 9999), month=(1, 12), day=(1, 31), hour=(0, 23), minute=(0, 59), second=(0, 59), microsecond=(0, 999999))
PARTS = {'date': ('year', 'month', 'day'), 'time': ('hour', 'minute', 'second', 'microsecond', 'tz'),
         'datetime': ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tz')}
TEXTS = ('2020-02-29', '2021-02-29', '20200229', '2020-W09-6', '0001-01-01', '9999-12-31', '10000-01-01', '12:30:01.5', '12:30:01.123456', '123001', '12', '24:00', '12:30:01+02:00', '10:00:00Z',
         '2020-02-29T12:30:01+02:00', '2020-02-29T12:30:01.000001Z', '2020-02-29 12:30', '2020-13-01', '')
WHERE = ['List[{}]', 'Opt[{}]', 'Dict[str,{}]', 'Tuple[{},int]', 'Union[int,{}]']
LASTING = tuple(x for x in ODD if not isinstance(x, Fresh) or not hasattr(x.make(), '__next__'))      # iterators can be read only once
CONSTS = (UTC, MyInt(5), catalog.INum.ONE, 2 ** 31, -2 ** 31, 2 ** 63, b'x')


def tasks(tier):
    q = tier == 'quick'
    r = []
    for c in SIZES:
        lo, hi = SIZES[c]
        for n in range(0, hi + 2):
            r.append(('list %s %d' % (c, n), 'h_list', dict(cls=c, n=n, free=min(n, (2 if n <= 3 else 1) if q else (3 if n <= 4 else 2)))))
        r.append(('text ' + c, 'h_text', dict(cls=c)))
        r.append(('iso ' + c, 'h_iso', dict(cls=c)))
        r.append(('dump ' + c, 'h_dump', dict(cls=c)))
        r.append(('odd ' + c, 'h_odd', dict(cls=c)))
        for w in WHERE:
            r.append(('in ' + w.format(c), 'h_in', dict(schema=w.format(c), cls=c)))
    r += [('delta', 'h_delta', dict(micro=False)), ('delta micro', 'h_delta', dict(micro=True)), ('dump delta', 'h_dumpdelta', {}), ('odd timedelta', 'h_odd', dict(cls='timedelta'))]
    for w in WHERE[:4] + ['Union[str,{}]']:
        r.append(('in ' + w.format('timedelta'), 'h_in', dict(schema=w.format('timedelta'), cls='timedelta')))
    r += load_tasks(['DCDates', 'Multi'], 'shaped ', 'h_shaped', lens=(1,), ilens=(1,), optional=False)
    return r


def load(S, v, t, c=None):
    """loads and compares with the constructor"""
    o, cfg = options(S, None, None)
    r = attempt(loader(S, **o).load, v, t)
    rec(S, 'load', r)
    ok, x = spec.construct(v, t)
    S.check(r.ok == ok, lambda: 'the constructor %s, load %s (%s)' % ('gives a value' if ok else 'refuses', 'gives one' if r.ok else 'fails', r.kind()))
    if r.ok:
        S.check(spec.same(r.value, x) and r.value.__class__ is t, 'another value than the constructor gives')
        if t in (datetime.time, datetime.datetime):
            S.check(r.value.tzinfo == x.tzinfo, 'another timezone than the constructor gives')
    else:
        S.check(typed(S, r.error), lambda: 'untyped exception ' + r.kind())
    return r


def h_list(S, cls, n, free):
    """components in a list: `free` of them are arbitrary, the others are in their ranges"""
    t = T(cls)
    S.pool((), ())
    wild = Spec(kinds=(NONE, BOOL, INT, FLOAT, STR), depth=0, strlen=1, consts=CONSTS)
    first = S.choose('wild', range(max(1, n - free + 1))) if free < n else 0
    which = set(range(first, first + free))
    v = []
    for i in range(n):
        name = PARTS[cls][i] if i < len(PARTS[cls]) else 'more'
        if i in which:
            v.append(S.any('c%d' % i, wild))
        elif name == 'tz':
            v.append(S.choose('tz', (None, UTC, EAST)))
        elif name == 'more':
            v.append(0)
        else:
            v.append(gen.inrange(S, 'c%d' % i, *RANGE[name]))
    load(S, v if S.choose('list', (True, False)) else tuple(v), t)


def h_text(S, cls):
    S.pool(TEXTS, ())
    load(S, S.any('v', Spec(kinds=(STR,), depth=0, strlen=3)), T(cls))


def h_odd(S, cls):
    """values that are no list and no text"""
    pools(S, T(cls))
    load(S, S.any('v', Spec(kinds=ALLKINDS, depth=1, lens=(0, 1, 2), strlen=2, consts=LASTING, elem=Spec(kinds=SCALAR, depth=0, strlen=2))), T(cls))


def h_iso(S, cls):
    t = T(cls)
    v = moment(S, cls, (None, UTC, EAST))
    load(S, v.isoformat(), t)


def moment(S, cls, zones=(None,)):
    v = [gen.inrange(S, 'c%d' % i, *RANGE[p]) for i, p in enumerate(PARTS[cls]) if p != 'tz']
    if cls != 'date':
        v.append(S.choose('tz', zones))
    return gen.build(S, T(cls), *v)


def quiet(f, *a):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return attempt(f, *a)


def h_dump(S, cls):
    t = T(cls)
    v = moment(S, cls, (None, UTC, EAST))
    iso = S.flag('isodates')
    where = S.choose('where', ('top', 'list', 'dict', 'object'))
    w = {'top': v, 'list': [v], 'dict': {'k': v}, 'object': catalog.DCAny(v)}[where]
    r = quiet(dumper(S, isodates=iso).dump, w)
    rec(S, 'dump', r)
    zone = None if cls == 'date' else v.tzinfo
    if zone is not None and not iso:
        S.check(not r.ok, 'a value with a timezone was dumped as a list')
        return
    S.check(r.ok, lambda: 'not dumped (%s)' % r.kind())
    d = r.value
    if where == 'list':
        d = d[0]
    elif where == 'dict':
        d = d['k']
    elif where == 'object':
        d = d['a']
    if iso:
        S.check(type(d) is str and d == v.isoformat(), 'not the ISO text')
    else:
        S.check(spec.same(d, [getattr(v, p) for p in PARTS[cls] if p != 'tz']), 'not the components of the value')
    b = attempt(loader(S, basiccast=S.flag('basiccast')).load, d, t)
    rec(S, 'back', b)
    S.check(b.ok and spec.same(b.value, v), lambda: 'the dump does not load back (%s)' % b.kind())
    if cls != 'date':
        S.check(b.value.tzinfo == zone, 'the timezone changed')


def h_delta(S, micro):
    if micro:
        S.resolution(10 ** 6)
    S.pool((), ())
    load(S, S.any('v', Spec(kinds=(NONE, BOOL, INT, FLOAT) if micro else SCALAR, depth=0, strlen=3, consts=() if micro else SUBS)), datetime.timedelta)


def h_dumpdelta(S):
    S.resolution(10 ** 6)
    v = gen.build(S, datetime.timedelta, 0, gen.inrange(S, 's', -4 * 10 ** 9, 4 * 10 ** 9), gen.inrange(S, 'us', 0, 999999))
    where = S.choose('where', ('top', 'list', 'object'))
    r = attempt(dumper(S, isodates=S.flag('isodates')).dump, {'top': v, 'list': [v], 'object': catalog.DCAny(v)}[where])
    rec(S, 'dump', r)
    S.check(r.ok, lambda: 'not dumped (%s)' % r.kind())
    d = r.value if where == 'top' else r.value[0] if where == 'list' else r.value['a']
    S.check(type(d) is float and d == v.total_seconds(), 'not the number of seconds')
    b = attempt(loader(S, basiccast=S.flag('basiccast')).load, d, datetime.timedelta)
    S.check(b.ok and b.value == v, 'the dump does not load back')


def h_in(S, schema, cls):
    """the same in containers"""
    t = T(schema)
    pools(S, t)
    comp = Spec(kinds=(INT,), depth=0)
    if cls == 'timedelta':
        x = S.any('x', Spec(kinds=SCALAR, depth=0, strlen=2))
    else:
        kind = S.choose('kind', ('list', 'text', 'other'))
        if kind == 'list':
            n = 3 if cls != 'datetime' else S.choose('n', (3, 4))
            x = [S.any('c%d' % i, comp) for i in range(n)]
        elif kind == 'text':
            x = moment(S, cls).isoformat()
        else:
            x = S.any('x', Spec(kinds=JSON, depth=1, lens=(0, 1), strlen=2))
    v = {'L': lambda: [x], 'O': lambda: x, 'D': lambda: {'k': x}, 'T': lambda: [x, 1], 'U': lambda: x}[schema[0]]()
    o, c = options(S, None, None)
    r = attempt(loader(S, **o).load, v, t)
    rec(S, 'load', r)
    judge(S, v, t, c, r, schema)
