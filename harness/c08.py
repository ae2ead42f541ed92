"""C08: renamed fields use their external name, and only that, in both directions."""
from .loads import *

BOUNDS = dict(input=BOUND_TEXT, classes='dataclass and attrs with renamings that rename, swap, shift, chain, are inherited, dropped or replaced in a subclass, or nested, under two keys',
              lengths='arbitrary mappings of 0-2 (3) entries; mappings with any subset of all internal and external names',
              options='mangle_key in name, alt, an unused key; failonextra symbolic')
NAMES = ['DCName', 'ATName', 'DCSwap', 'ATSwap', 'DCCamel', 'DCShift', 'ATShift', 'DCNameChild', 'ATFree', 'DCNameRe', 'DCNameTaken', 'ATNameRe']
NEST = ['DCNameNest', 'ATNameNest', 'List[DCName]', 'Dict[str,ATShift]', 'Opt[DCSwap]', 'Tuple[DCName,ATName]', 'Union[DCSwap,List[int]]']
KEYS = ('name', 'alt', 'other')


def tasks(tier):
    q = tier == 'quick'
    r = load_tasks(NAMES, 'names ', 'h_names', full=not q)
    r += load_tasks(NAMES, 'any ', 'h_load', key=KEYS, cast=False, lens=(0, 1), dlens=(0, 1, 2) if q else (0, 1, 2, 3), strlen=2, depth=1)
    r += load_tasks(NEST, 'shaped ', 'h_shaped', key=KEYS, cast=False, lens=(1,) if q else (1, 2), ilens=(1,), holedepth=1)
    r += load_tasks(NAMES + NEST, 'dump ', 'h_dump', lens=(1,) if q else (0, 1, 2))
    return r


def h_names(S, schema, full):
    """any subset of the internal and external names"""
    t = T(schema)
    names = []
    fs = catalog.fields(t)
    for f in fs:
        for n in (f.name, f.ext('name'), f.ext('alt'), f.ext('other')):
            if n not in names:
                names.append(n)
    pools(S, t)
    texts = {f.ext(k) for f in fs for k in KEYS if f.type in (str, T('Opt[str]'))}
    d = {}
    for i, n in enumerate(names[:7]):
        if S.choose('with ' + n, (True, False)):
            d[n] = S.any('v.' + n, Spec(kinds=(INT, STR), depth=0, strlen=1, pool=False)) if not full or i > 2 \
                else S.any('v.' + n, Spec(kinds=JSON, depth=1, lens=(0, 1), strlen=1, pool=False))
    o, c = options(S, False if not full else None, None, KEYS)
    l = loader(S, **o)
    r = attempt(l.load, d, t)
    rec(S, 'load', r)
    judge(S, d, t, c, r, schema)


def h_dump(S, schema, lens):
    t = T(schema)
    pools(S, t, ())
    c = spec.DCfg(S.flag('hidedefault'), False, S.choose('mangle_key', KEYS))
    v = gen.value(S, 'v', t, gen.G(lens, 2, 2, optional=True))
    r = attempt(dumper(S, hidedefault=c.hide, mangle_key=c.key).dump, v)
    rec(S, 'dump', r)
    S.check(r.ok, lambda: 'dumping %s failed' % schema)
    S.check(spec.isdump(r.value, v, c), lambda: 'wrong names or content in the dump of ' + schema)
