PROPERTY = 'C24'
NEEDS = 'an instance of a subclass of argparse.Namespace'
BREAKS = 'subclasses of Namespace are not converted to dictionaries'
EDITS = [
    ('typedload/dataloader.py',
     "    if l.dictequivalence and hasattr(value, '_get_kwargs'):\n",
     '    from argparse import Namespace\n    if l.dictequivalence and type(value) is Namespace:\n'),
]
DEMO = r"""
import argparse
from typing import *
from typedload import load
class Options(argparse.Namespace):
    pass
class A(NamedTuple):
    a: int
assert load(argparse.Namespace(a=1), A) == A(1)
assert load(Options(a=1), A) == A(1)
assert load(Options(a=1), Dict[str, int]) == {'a': 1}
"""
