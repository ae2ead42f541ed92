"""C21: every typedload exception renders as text with its message and path."""
from .loads import *
from .c05 import plainvalue, lengths
from . import c18

BOUNDS = dict(loads='every exception of the loads of C18: ' + str(c18.BOUNDS['shapes']), built='exceptions built from the documented parts: a root and 0-3 steps of every kind of annotation with arbitrary positions '
              '(any integer, also True and +-10^5000), arbitrary names of 0-2 characters, and arbitrary values; up to 2 attached errors nested 2 deep; 0-2 arguments', dumps='values that cannot be dumped, nested up to 2 deep',
              options='basiccast, failonextra symbolic; mangle_key in name, alt')
OUTSIDE = ('how values are rendered in messages; how the steps into unions, dictionaries and names are rendered in the path; ' + OUTSIDE)


def tasks(tier):
    q = tier == 'quick'
    r = [('built', 'h_built', dict(steps=2 if q else 3)), ('nested', 'h_nested', dict(deep=not q)), ('names', 'h_text', {}), ('dumps', 'h_dumps', {})]
    for n, f, k in c18.tasks(tier):
        if f == 'h_bad':
            k = dict(k, optional=False, lens=(1,) if q else k['lens'])
        r.append((n, f, k))
    return r


# ---------------------------------------------------------------- what the text must hold
ROOT = object()


def runs(S, trace):
    """the steps as texts; None where the rendering is free"""
    A = S.tl.exceptions.AnnotationType
    r = []
    for item in trace:
        a = item.annotation
        if a is None:
            r.append(ROOT)
        elif a[0] is A.INDEX or a[0] == A.INDEX:
            r.append(None if huge(a[1]) else '[%d]' % a[1])
        elif a[0] == A.FIELD:
            r.append(S.token(a[1]))
        else:
            r.append(None)
    return r


def broken(S, item):
    """a step whose free rendering can take more than one line"""
    A = S.tl.exceptions.AnnotationType
    a = item.annotation
    if a is None or a[0] == A.INDEX or a[0] == A.FIELD:
        return False
    x = S.token(a[1])
    return isinstance(x, str) and '\n' in str(x)


def huge(i):
    try:
        str(i)
    except ValueError:
        return True
    return False


def first(text, part, pos):
    """where text continues after the first occurrence of part; None: nowhere"""
    i = text.find(part, pos)
    return None if i < 0 else i + len(part)


def path_ok(line, steps):
    """does a rendered path show the steps?"""
    if steps and steps[0] is ROOT and all([type(s) is str for s in steps[1:]]):
        return line == ('.' + '.'.join(steps[1:]) if len(steps) > 1 else '.')
    pos = 0
    run = []
    for s in steps + [None]:
        if type(s) is str:
            run.append(s)
        elif run:
            pos = first(line, '.'.join(run), pos)
            if pos is None:
                return False
            run = []
    return True


def shown(S, text, e, trace, pos):
    """the message and the path of an exception, then those of the attached ones; returns where the text continues"""
    for a in e.args:
        m = str(a)
        for part in m.split('\n'):
            p = first(text, part, pos)
            S.check(p is not None, 'the message is not in the text')
            pos = p
    p = first(text, 'Path:', pos)
    S.check(p is not None, 'no path in the text')
    end = -1 if any([broken(S, i) for i in trace]) else text.find('\n', p)
    line = text[p:end if end >= 0 else len(text)].lstrip(' ')
    S.check(path_ok(line, runs(S, trace)), lambda: 'wrong path in the text: %r' % line)
    pos = p
    for x in e.exceptions:
        pos = shown(S, text, x, trace + x.trace[1:], pos)
    return pos


def rendered(S, e):
    with S.tokens():
        r = attempt(str, e)
        S.record('text', r.kind())
        S.check(r.ok, lambda: 'str() fails with ' + r.kind())
        S.check(isinstance(r.value, str), 'str() gives no text')
        shown(S, r.value, e, list(e.trace), 0)


def run(S, v, t, o, c):
    r = attempt(loader(S, **o).load, v, t)
    rec(S, 'load', r)
    if r.ok:
        S.check(True, '')
    elif typed(S, r.error):
        rendered(S, r.error)


def h_any(S, schema, lens):
    c18.h_any(S, schema, lens, run)


def h_bad(S, run=run, **k):
    c18.h_bad(S, run=run, **k)


def h_unsupported(S, **k):
    c18.h_unsupported(S, run=run, **k)


def h_wide(S, schema):
    c18.h_wide(S, schema, run)


def h_long(S, schema):
    c18.h_long(S, schema, run)


# ---------------------------------------------------------------- built from parts
CLASSES = ('TypedloadException', 'TypedloadValueError', 'TypedloadTypeError', 'TypedloadAttributeError')
POSITIONS = (0, 7, 12, -1, True, 10 ** 5000)


class Mute:
    """no printable form"""
    def __repr__(self):
        raise ZeroDivisionError('mute')

    __str__ = __repr__


VALUES = (5, 'x', None, [1], Mute(), 10 ** 5000, '\ud800')


def step(S, n, free=True):
    E = S.tl.exceptions
    A = E.AnnotationType
    k = S.choose(n + '.kind', ('index', 'field', 'union', 'key', 'value', 'forwardref', 'none') if free else ('index', 'field', 'value', 'union') if len(n) == 2 else ('index', 'field', 'union'))
    if k == 'none':
        a = None
    elif k == 'index':
        a = E.Annotation(A.INDEX, S.choose(n + '.position', POSITIONS if free else (3,)))
    elif k == 'field':
        a = E.Annotation(A.FIELD, S.choose(n + '.field', ('f', 'some_field', '', 'é', 'f ') if free else ('f', 'f ') if n == 'eba0' else ('f',)))
    elif k == 'union':
        a = E.Annotation(A.UNION, S.choose(n + '.union', (int, T('List[int]'), catalog.DC, None)) if free else int)
    elif k == 'forwardref':
        a = E.Annotation(A.FORWARDREF, 'Node')
    else:
        a = E.Annotation(A.KEY if k == 'key' else A.VALUE, S.choose(n + '.value', VALUES) if free else 'x')
    return E.TraceItem(S.choose(n + '.v', VALUES) if free and k == 'none' else 1, int, a)


def built(S, n, trace, subs, args, more=False):
    cls = getattr(S.tl.exceptions, S.choose(n + '.class', CLASSES) if more else CLASSES[1])
    return cls(*args, trace=trace, value=1, type_=int, exceptions=subs)


def h_built(S, steps):
    E = S.tl.exceptions
    root = [E.TraceItem({}, int, None)] if S.flag('root') else []
    trace = root + [step(S, 's%d' % i, i < 2) for i in range(S.choose('steps', range(steps + 1)))]
    more = len(trace) - len(root) < 2
    e = built(S, 'e', trace, S.choose('none', (None, []) if more else ([],)), [S.choose('message', ('msg', '', 'two\nlines', 'p%s') if more else ('msg',))], more)
    rendered(S, e)


def h_nested(S, deep):
    E = S.tl.exceptions

    def exc(n, depth):
        trace = [E.TraceItem(1, int, E.Annotation(E.AnnotationType.UNION, int) if n != 'e' else None)] if n != 'e' or S.flag('root') else []
        trace += [step(S, n + str(i), False) for i in range(S.choose(n + '.steps', (0, 1, 2) if n == 'e' or deep else (1,)))]
        subs = [exc('%s%s' % (n, 'ab'[i]), depth - 1) for i in range(S.choose(n + '.subs', (0, 1, 2) if depth == 2 or deep else (1,)) if depth else 0)]
        return built(S, n, trace, subs, ['message ' + n])
    rendered(S, exc('e', 2))


def h_text(S):
    """arbitrary names and positions"""
    E = S.tl.exceptions
    A = E.AnnotationType

    def steps(n, most):
        r = []
        for i in range(S.choose(n + '.steps', range(most + 1))):
            m = '%s%d' % (n, i)
            k = S.choose(m + '.kind', ('index', 'field', 'key'))
            if k == 'index':
                a = E.Annotation(A.INDEX, S.any(m, Spec(kinds=(INT,), depth=0)))
            elif k == 'field':
                a = E.Annotation(A.FIELD, S.any(m, Spec(kinds=(STR,), depth=0, strlen=2)))
            else:
                a = E.Annotation(A.KEY, S.any(m, Spec(kinds=SCALAR, depth=0, strlen=2)))
            r.append(E.TraceItem(1, int, a))
        return r
    v = S.any('v', Spec(kinds=SCALAR, depth=0, strlen=1))
    sub = E.TypedloadValueError('sub', trace=[E.TraceItem(v, int, E.Annotation(A.UNION, int))] + steps('b', 1), value=v)
    rendered(S, E.TypedloadTypeError('msg', trace=[E.TraceItem(v, int, None)] + steps('a', 3), value=v, exceptions=[sub]))


class Unknown:
    pass


def h_dumps(S):
    """dumps that fail"""
    x = S.choose('what', (Unknown(), Mute(), b'x', object(), 3 + 4j, range(3), iter))
    v = S.choose('where', (lambda x: x, lambda x: [x], lambda x: {'a': x}, lambda x: catalog.DC(1, x), lambda x: (1, [x]), lambda x: catalog.NT(x)))(x)
    r = attempt(dumper(S, hidedefault=S.flag('hidedefault')).dump, v)
    rec(S, 'dump', r)
    S.check(not r.ok and typed(S, r.error), 'no typedload exception')
    rendered(S, r.error)
