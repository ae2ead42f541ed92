PROPERTY = 'C27'
NEEDS = 'a second thread loading into the same union with overlapping tags while the first one is still filling the table of tags'
BREAKS = 'the table of tags is published before it is filled, so another thread uses an empty one and takes another member of the union'
EDITS = [
    ('typedload/dataloader.py',
     "                key = min(keys)  # Always the same one, sets have no order\n                for t, d in data.items():\n                    for literal in d[key]:\n                        cachedict[literal] = t\n                discriminatorscache = key, cachedict\n            else:\n                discriminatorscache = None, None\n            l._unionload_discriminatorcache[args] = discriminatorscache\n",
     "                key = min(keys)  # Always the same one, sets have no order\n                discriminatorscache = l._unionload_discriminatorcache[args] = key, cachedict\n                for t, d in data.items():\n                    for literal in d[key]:\n                        cachedict[literal] = t\n            else:\n                discriminatorscache = l._unionload_discriminatorcache[args] = None, None\n"),
]
DEMO = r"""
import sys, threading
from typing import *
from typedload.dataloader import Loader
class A(NamedTuple):
    t: Literal['a', 'b']
class B(NamedTuple):
    t: Literal['b', 'c']
want = Loader().load({'t': 'b'}, Union[A, B])
# a second thread comes in at every line of the first one
def attempt(n):
    l = Loader()
    got = []
    count = [0]
    def other():
        got.append(l.load({'t': 'b'}, Union[A, B]))
    def trace(frame, event, arg):
        if event == 'line' and 'dataloader' in frame.f_code.co_filename:
            count[0] += 1
            if count[0] == n:
                t = threading.Thread(target=other)
                t.start()
                t.join()
        return trace
    sys.settrace(trace)
    try:
        got.append(l.load({'t': 'b'}, Union[A, B]))
    finally:
        sys.settrace(None)
    for g in got:
        assert type(g) is type(want), (n, g)
    return count[0] >= n
n = 1
while attempt(n):
    n += 1
"""
