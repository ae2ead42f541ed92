PROPERTY = 'C27'
NEEDS = 'a second thread loading the same dataclass with renamed fields while the first load of it is in progress'
BREAKS = 'the information about a dataclass is cached in two steps: between them another thread sees no renamed fields'
EDITS = [
    ('typedload/dataloader.py',
     "    if cached:\n        fields, necessary_fields, type_hints, transforms = cached\n    else:\n",
     "    if cached:\n        fields, necessary_fields, type_hints, transforms = cached\n    else:\n        transforms = {}\n"),
    ('typedload/dataloader.py',
     "        # Prepare the list of the needed name changes\n        transforms = {}\n        for pyname in (k for k in type_.__dataclass_fields__ if k in fields):\n            if type_.__dataclass",
     "        # Prepare the list of the needed name changes\n        l._objfieldscache[type_] = (fields, necessary_fields, type_hints, transforms)\n        for pyname in (k for k in type_.__dataclass_fields__ if k in fields):\n            if type_.__dataclass"),
    ('typedload/dataloader.py',
     "                    transforms[name] = pyname\n        l._objfieldscache[type_] = (fields, necessary_fields, type_hints, transforms)\n",
     "                    transforms[name] = pyname\n"),
]
DEMO = r"""
import sys, threading
from dataclasses import *
from typedload.dataloader import Loader
@dataclass
class A:
    a: int = field(metadata={'name': 'x'})
    b: int = field(default=2, metadata={'name': 'y'})
def attempt(n):
    l = Loader()
    got = []
    count = [0]
    def other():
        try:
            got.append(l.load({'x': 1, 'y': 3}, A))
        except Exception as e:
            got.append(e)
    def trace(frame, event, arg):
        if event == 'line' and 'dataloader' in frame.f_code.co_filename:
            count[0] += 1
            if count[0] == n:
                t = threading.Thread(target=other)
                t.start()
                t.join()
        return trace
    sys.settrace(trace)
    try:
        got.append(l.load({'x': 1, 'y': 3}, A))
    finally:
        sys.settrace(None)
    for g in got:
        assert g == A(1, 3), (n, g)
    return count[0] >= n
n = 1
while attempt(n):
    n += 1
"""
