PROPERTY = 'C09'
NEEDS = 'a union in which a member fails in the middle and another follows, with the error examined'
BREAKS = 'members whose handler is the same as one that failed already are not tried again when the value is a string'
EDITS = [
    ('typedload/dataloader.py',
     '            r = f(l, value, t)\n            loaded_count += 1\n',
     '            if value_type is str and any(f is l._indexcache.get(x.trace[0].annotation[1]) for x in exceptions if x.trace and x.trace[0].annotation[1] in l.strconstructed):\n                # Would fail in the same way\n                raise exceptions[-1]\n\n            r = f(l, value, t)\n            loaded_count += 1\n'),
]
DEMO = r"""
import ipaddress, uuid
from typing import *
from typedload import load
t = Union[ipaddress.IPv4Address, ipaddress.IPv6Address]
assert load('127.0.0.1', t) == ipaddress.IPv4Address('127.0.0.1')
assert load('::1', t) == ipaddress.IPv6Address('::1')
"""
