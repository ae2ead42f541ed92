PROPERTY = 'C32'
NEEDS = 'a dumper without one of the usual basic types, and a list of it with a hint'
BREAKS = 'lists of the usual basic types are copied even if the dumper does not have the type in its set'
EDITS = [
    ('typedload/datadumper.py',
     "    if itertype in d.basictypes and d.handlers[0][1] == _identitydump:\n",
     "    if itertype in (int, bool, float, str) and d.handlers[0][1] == _identitydump:\n"),
]
DEMO = r"""
from dataclasses import dataclass
from typing import List
from typedload.datadumper import Dumper
@dataclass
class A:
    v: List[float]
try:
    Dumper(basictypes={int, str, bool, type(None)}).dump(A([1.5]))
    raise SystemExit(1)
except ValueError:
    pass
"""
