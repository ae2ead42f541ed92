PROPERTY = 'C20'
NEEDS = 'one handler function registered with two conditions, and index() for the second one after a load'
BREAKS = 'index() finds the position of the handler function in the cache, so it gives the first position of a function that is registered twice'
EDITS = [
    ('typedload/dataloader.py',
     '        for i, cond in ((q[0], q[1][0]) for q in enumerate(self.handlers)):\n            try:\n                match = cond(type_)',
     '        known = self._indexcache.get(type_)\n        if known is not None:\n            # Already looked up\n            return [h[1] for h in self.handlers].index(known)\n        for i, cond in ((q[0], q[1][0]) for q in enumerate(self.handlers)):\n            try:\n                match = cond(type_)'),
]
DEMO = r"""
from typedload.dataloader import Loader
class A: pass
class B: pass
def make(l, v, t):
    return t()
l = Loader()
l.handlers.insert(0, (lambda t: t == A, make))
l.handlers.insert(1, (lambda t: t == B, make))
assert l.index(A) == 0 and l.index(B) == 1
l.load(1, A); l.load(1, B)
assert l.index(A) == 0 and l.index(B) == 1
"""
