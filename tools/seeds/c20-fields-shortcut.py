PROPERTY = 'C20'
NEEDS = 'a dumper with an own handler for a basic type, and a NamedTuple with a field of that type'
BREAKS = 'fields of NamedTuple that hold basic values are not passed to the handlers'
EDITS = [
    ('typedload/datadumper.py',
     "        k: d.dump(v) for k, v in value._asdict().items()\n",
     "        k: v if type(v) in d.basictypes else d.dump(v) for k, v in value._asdict().items()\n"),
]
DEMO = r"""
from typing import *
from typedload.datadumper import Dumper
class N(NamedTuple):
    a: int
d = Dumper()
d.handlers.insert(0, (lambda v: type(v) is int, lambda d, v, t: str(v)))
assert d.dump(3) == '3'
assert d.dump(N(3)) == {'a': '3'}, d.dump(N(3))
"""
