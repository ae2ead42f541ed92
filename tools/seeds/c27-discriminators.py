PROPERTY = 'C27'
NEEDS = 'a second thread that loads into the same tagged union while the first one is collecting its tags'
BREAKS = 'the table of the tags of a union is published before it is complete'
EDITS = [
    ('typedload/dataloader.py',
     '            cachedict = {}\n            if keys:\n                key = min(keys)  # Always the same one, sets have no order\n                for t, d in data.items():\n',
     '            cachedict = {}\n            if keys:\n                key = min(keys)  # Always the same one, sets have no order\n                discriminatorscache = l._unionload_discriminatorcache[args] = key, cachedict\n                for t, d in data.items():\n'),
]
DEMO = r"""
import sys, threading
from typing import *
from typedload.dataloader import Loader
class A(NamedTuple):
    t: Literal['a']
    v: int = 0
class B(NamedTuple):
    t: Literal['b']
    v: int = 0
# The second thread runs whenever the first one starts a line inside of _unionload
def other(l, out):
    try:
        out.append(l.load({'t': 'b', 'v': 'x'}, Union[A, B]))
    except Exception as e:
        out.append([type(i.type_) and len(e.exceptions) for i in [e]] + [e.exceptions[0].trace[0].annotation[1]])
def alone():
    out = []
    other(Loader(basiccast=False), out)
    return out
want = alone()
for stop in range(200):
    l = Loader(basiccast=False)
    out = []
    n = [0]
    def tracer(frame, event, arg):
        if frame.f_code.co_name != '_unionload' or threading.current_thread() is not threading.main_thread():
            return tracer
        if event == 'line':
            n[0] += 1
            if n[0] == stop:
                th = threading.Thread(target=other, args=(l, out)); th.start(); th.join()
        return tracer
    sys.settrace(tracer)
    try:
        l.load({'t': 'a'}, Union[A, B])
    finally:
        sys.settrace(None)
    assert not out or out == want, (stop, out, want)
    try:
        got = l.load({'t': 'b', 'v': 3}, Union[A, B])
    except Exception as e:
        got = e
    assert got == B('b', 3)
"""
