PROPERTY = 'C10'
NEEDS = 'tags that are not text'
BREAKS = 'a member is chosen by the text of the tag'
EDITS = [
    ('typedload/dataloader.py',
     '                        cachedict[literal] = t',
     '                        cachedict.setdefault(str(literal), t)'),
    ('typedload/dataloader.py',
     'discriminatorscache[1].get(value.get(discriminatorscache[0]))',
     'discriminatorscache[1].get(str(value.get(discriminatorscache[0])))'),
    ('typedload/dataloader.py',
     '                sorted_args.remove(preferredtype)\n                sorted_args.insert(0, preferredtype)',
     '                sorted_args = [preferredtype]'),
]
DEMO = r"""
from typing import *
from typedload import load
class A(NamedTuple):
    t: Literal[1]
class B(NamedTuple):
    t: Literal['1']
assert load({'t': 1}, Union[A, B]) == A(1)
assert load({'t': '1'}, Union[A, B]) == B('1')
"""
