"""C15: default hiding drops a field exactly when it equals its default."""
from .loads import *

BOUNDS = dict(values='every field of the class in turn (in thorough: every pair) holding an arbitrary value of its type or of another field\'s type, the others at or off their '
              'defaults', sequences='a dump of another class (parent, child, class of the same name), then a change in place of the dumped object, then the dump judged, '
              'then a second object of the class', classes='dataclass, attrs, NamedTuple with plain, empty, mutable, factory, self-dependent, nan, object and enum defaults; '
              'inherited and overridden defaults; renamed fields', options='hidedefault symbolic')
GROUPS = [('HDC',), ('HAT',), ('HNT',), ('DCFact', 'HDCChild', 'HDCPlain'), ('ATFact', 'HATChild'), ('Mid', 'MidChild'), ('QDC', 'QAT', 'QNT'), ('DC', 'DCChild'),
          ('NTDef', 'NT'), ('NTOpts', 'NTSubVar', 'NT'), ('DCOpt', 'ATOpt'), ('DCLit',), ('DCName', 'ATName'), ('ATFree',), ('ATRepr',), ('DCKw',), ('DCVar', 'ATVar'), ('DCSlots', 'DCSlotChild'), ('ATSlots',), ('AT', 'ATChild')]
ODDV = (None, True, 0, 0.0, '', (), [], {}, 1, 1.0, 'RED', (1,), [1], [1.0], {'a': 1}, catalog.Colour.BLUE, float('nan'))


def tasks(tier):
    q = tier == 'quick'
    r = []
    for g in GROUPS:
        r.append(('fields ' + ' '.join(g), 'h_fields', dict(group=g)))
        if not q:
            r.append(('pairs ' + ' '.join(g), 'h_fields', dict(group=g, two=True)))
        r.append(('sequence ' + ' '.join(g), 'h_sequence', dict(group=g)))
    r.append(('sequence same name', 'h_sequence', dict(group=None)))
    r.append(('nested', 'h_nested', {}))
    return r


def make(S, n, t, two=False, odd=True, lens=(0, 1, 2)):
    """an object, one (two) of its fields holding an arbitrary value"""
    fs = [f for f in catalog.fields(t) if f.init]
    p = S.choose(n + '.position', range(len(fs)))
    p2 = S.choose(n + '.position2', range(p, len(fs))) if two else p
    off = S.choose(n + '.others', (False, True))
    kw = {}
    for i, f in enumerate(fs):
        if i == p or i == p2:
            s = '%s.%s' % (n, f.name)
            # a value of the right type, or one that only resembles the default
            if not odd or S.choose(s + '.right', (True, False)):
                kw[f.name] = gen.value(S, s, f.type, gen.G(lens, 1, 2, optional=len(lens) > 2, ilens=(0, 1)))
            elif S.choose(s + '.scalar', (True, False)):
                kw[f.name] = S.any(s, Spec(kinds=SCALAR, depth=0, strlen=1))
            else:
                kw[f.name] = S.choose(s + '.odd', ODDV)
        elif f.required or off:
            kw[f.name] = gen.fixed(f.type, i)
    return t(**kw)


def judgedump(S, d, v, c, label, t):
    S.record(label, (d.kind(), d.value if d.ok else None))
    S.check(d.ok, lambda: 'dumping %s failed with %s' % (t.__name__, d.kind()))
    want = spec.dumpfields(v, c)
    S.check(len(d.value) == len(want), lambda: 'wrong number of fields in the dump of ' + t.__name__)
    for k, x in want.items():
        S.check(k in d.value, lambda: 'field %s missing from the dump of %s' % (k, t.__name__))
    S.check(spec.isdump(d.value, v, c), lambda: 'wrong dump of ' + t.__name__)


def h_fields(S, group, two=False):
    t = T(S.choose('class', group))
    pools(S, t, ('', 'x', 'y'), (0, 1, 3, 5, 7, 9))
    c = spec.DCfg(S.flag('hidedefault'))
    v = make(S, 'v', t, two)
    judgedump(S, attempt(dumper(S, hidedefault=c.hide).dump, v), v, c, 'dump', t)


def change(v):
    """changes the containers of an object in place"""
    for f in catalog.fields(type(v)):
        x = getattr(v, f.name)
        if type(x) is list:
            x.append(5)
        elif type(x) is dict:
            x['q'] = 5
        elif type(x) is set:
            x.add(5)


def h_sequence(S, group):
    classes = [T(g) for g in group] if group else catalog.SAMES
    t1 = classes[S.choose('first', range(len(classes)))]
    t2 = classes[S.choose('second', range(len(classes)))]
    if not group:
        S.assume(catalog.objkind(t1) == catalog.objkind(t2))
    pools(S, t2, ('', 'x', 'y'), (0, 1, 2, 3, 5, 7, 9))
    c = spec.DCfg(S.flag('hidedefault'))
    d = dumper(S, hidedefault=c.hide)
    kw = {f.name: gen.fixed(f.type, i) for i, f in enumerate(catalog.fields(t1)) if f.init and f.required}
    if S.choose('off', (False, True)):
        kw = {f.name: gen.fixed(f.type, i) for i, f in enumerate(catalog.fields(t1)) if f.init}
    v1 = t1(**kw)
    judgedump(S, attempt(d.dump, v1), v1, c, 'first', t1)
    if catalog.objkind(t1) != 'nt' and S.choose('change', (False, True)):
        change(v1)
        judgedump(S, attempt(d.dump, v1), v1, c, 'changed', t1)
    v = make(S, 'v', t2, odd=False, lens=(0, 1))
    judgedump(S, attempt(d.dump, v), v, c, 'second', t2)


def h_nested(S):
    """the choice is made for the objects inside, too"""
    i = Spec(kinds=(INT,), depth=0)
    pools(S, T('DCNest'), (), (1, 7))
    c = spec.DCfg(S.flag('hidedefault'))
    s = Spec(kinds=(STR,), depth=0, strlen=1)
    a, b = catalog.DC(1, S.any('s0', s)), catalog.DC(1, S.any('s1', s))
    k = S.choose('shape', range(6))
    e = ({'a': 1} if c.hide and a.b == 'x' else {'a': 1, 'b': a.b})
    f = ({'a': 1} if c.hide and b.b == 'x' else {'a': 1, 'b': b.b})
    v, want = [(catalog.DCNest(a, [b]), {'n': e, 'l': [f]}), ([a, b], [e, f]), ({'x': a, 'y': b}, {'x': e, 'y': f}), ((a, [b]), [e, [f]]),
               (catalog.DCNest(a), {'n': e} if c.hide else {'n': e, 'l': []}), (catalog.NTNest(catalog.NT(1, a.b), [S.any('i', i)]), None)][k]
    r = attempt(dumper(S, hidedefault=c.hide).dump, v)
    rec(S, 'dump', r)
    S.check(r.ok and (spec.isdump(r.value, v, c)), 'wrong dump of nested objects')
    if want is not None:
        S.check(spec.same(r.value, want), 'wrong dump of nested objects')
