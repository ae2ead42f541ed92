PROPERTY = 'C25'
NEEDS = 'two calls of load with unions of the same members in another order'
BREAKS = 'the members of a union are remembered by the union, and unions with the same members are equal, so the order of the first call is used'
EDITS = [
    ('typedload/typechecks.py',
     "def uniontypes(",
     "@lru_cache(maxsize=None)\ndef uniontypes("),
    ('typedload/typechecks.py',
     "import sys\n",
     "import sys\nfrom functools import lru_cache\n"),
]
DEMO = r"""
from typing import *
from typedload import load
assert load(1.5, Union[int, str]) == 1
assert load(1.5, Union[str, int]) == '1.5', load(1.5, Union[str, int])
"""
