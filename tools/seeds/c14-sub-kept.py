PROPERTY = 'C14'
NEEDS = 'an instance of a subclass of list in a field that is a list of basic values'
BREAKS = 'the dump holds an instance of the subclass'
EDITS = [
    ('typedload/datadumper.py',
     "            return value.copy()\n",
     "            return copy(value)\n"),
    ('typedload/datadumper.py', "import datetime\n", "from copy import copy\nimport datetime\n"),
]
DEMO = r"""
from dataclasses import dataclass
from typing import *
from typedload import dump
class L(list):
    pass
@dataclass
class A:
    a: List[int]
r = dump(A(L([1, 2])))
assert r == {'a': [1, 2]} and type(r['a']) is list, type(r['a'])
"""
