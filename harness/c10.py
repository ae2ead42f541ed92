"""C10: a literal tag selects the right member of a union of objects."""
from .loads import *
import itertools

BOUNDS = dict(input='mappings with any tag (every kind, declared values and others, missing), an arbitrary value in the other field, an arbitrary extra key; ' + BOUND_TEXT,
              unions='2-3 members of every kind of object, text and number tags, tags of several values, several literal fields; all orders',
              history='fresh loader, or one that loaded other data or another order before', options='basiccast, failonextra symbolic')
UNIONS = ['TagA,TagB', 'DTagA,DTagB', 'DTagI,DTagJ', 'TDTagA,TDTagB', 'ATagA,ATagB', 'DTag2A,DTag2B', 'TagX,TagY', 'TagA,DTagB', 'TDTagA,ATagB', 'DTagA,DTagI',
          'DTagA,DTagI,DTagJ', 'TagA,TagX,TagY', 'ATagA,TagB,DTagI', 'DTagJ,TagX,TDTagB', 'PTagA,PTagB', 'KTagA,KTagB', 'TagA,TagSub']


def tasks(tier):
    q = tier == 'quick'
    r = []
    for u in UNIONS:
        ms = u.split(',')
        for o in itertools.permutations(ms) if len(ms) == 2 or not q else [ms, ms[::-1]]:
            r.append(('tag ' + ','.join(o), 'h_tag', dict(members=','.join(o), deep=not q, light=q and len(catalog.fields(T(ms[-1]))) > 2)))
    r += load_tasks(['List[Union[TagA,TagB]]', ('Dict[str,Union[DTagA,DTagB]]', dict(lens=(1,))), 'Opt[Union[ATagA,ATagB]]', 'List[Union[DTagI,DTagJ]]', 'Union[TDTagA,TDTagB]',
                     'Union[TagA,TagB]', 'Union[DTag2A,DTag2B]', 'Tuple[Union[TagA,TagB],Union[DTagA,DTagB]]'], 'shaped ', 'h_shaped',
                    lens=(2,) if q else (0, 1, 2), ilens=(1,), holedepth=0, cast=False)
    return r


def tagfield(ms):
    """the required literal fields that all members share, with disjoint values"""
    out = []
    for f in catalog.fields(ms[0]):
        sets = []
        for m in ms:
            for g in catalog.fields(m):
                if g.name == f.name and g.required and typing.get_origin(g.type) is typing.Literal:
                    sets.append(list(g.type.__args__))
        if len(sets) == len(ms) and not any(x == y for i, a in enumerate(sets) for b in sets[i + 1:] for x in a for y in b):
            out.append((f.name, dict(zip(ms, sets))))
    return out


def h_tag(S, members, deep, light=False):
    ms = [T(m) for m in members.split(',')]
    u = typing.Union.__getitem__(tuple(ms))
    pools(S, u, ('t',))
    names = []
    for m in ms:
        names += [f.name for f in catalog.fields(m) if f.name not in names]
    d = {}
    free = True         # (quick: either the tag or the rest is arbitrary)
    names.sort(key=lambda n: n != 't')
    (tag, values), = tagfield(ms)
    for n in names:
        if n == tag:
            i = S.choose('tag', range(3))
            if i == 2:
                free = deep
                d[n] = S.any('t', Spec(kinds=JSON, depth=1, lens=(0, 1), strlen=1))
            elif i == 1:
                d[n] = S.choose('known', [x for m in ms for x in values[m]])
        elif n == 'v':
            if S.choose('with v', (True, False)):
                d[n] = 1 if not free else S.any('v', Spec(kinds=JSON if not light else (INT, STR, LIST), depth=1, lens=(0, 1), strlen=1 if not deep else 2))
        else:
            lits = []
            for m in ms:
                for f in catalog.fields(m):
                    if f.name == n and typing.get_origin(f.type) is typing.Literal:
                        lits += f.type.__args__
            lits = [0] + lits[-1:] if light else lits
            j = S.choose('with ' + n, range((2 if free and not light else 1) + len(lits)))
            if j:
                d[n] = lits[j - 1] if j <= len(lits) else S.any('x.' + n, Spec(kinds=JSON, depth=0, strlen=1))
    if deep and S.choose('extra', (False, True)):
        d[S.any('k', Spec(kinds=(STR,), depth=0, strlen=1))] = 1
    o, c = options(S, None, None)
    l = loader(S, **o)
    h = S.choose('history', range(3))
    if h == 1:
        attempt(l.load, {tag: values[ms[0]][0], 'v': 1}, u)
        attempt(l.load, {tag: 'none of them'}, u)
        attempt(l.load, 5, u)
    elif h == 2:
        attempt(l.load, {tag: values[ms[-1]][0], 'v': 'x'}, typing.List[typing.Union.__getitem__(tuple(ms[::-1]))])
        attempt(l.load, {}, ms[0])
    r = attempt(l.load, d, u)
    rec(S, 'load', r)
    owner = None
    if tag in d:
        for m in ms:
            for x in values[m]:
                if d[tag] == x:
                    owner = m
    if owner is None:
        S.check(not r.ok, 'data without a known tag was loaded')
        S.check(typed(S, r.error), 'untyped exception')
    else:
        alone = attempt(loader(S, **o).load, d, owner)
        S.check(r.ok == alone.ok, lambda: 'the member that declares the tag says %s, the union %s' % (alone.kind(), r.kind()))
        if r.ok:
            S.check(spec.same(r.value, alone.value), 'the union loads something else than the member that declares the tag')
        else:
            S.check(typed(S, r.error), 'untyped exception')
        judge(S, d, owner, c, r, members)
