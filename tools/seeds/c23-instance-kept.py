PROPERTY = 'C23'
NEEDS = 'an instance of a subclass of the requested text constructed type'
BREAKS = 'the value is returned as it is, instead of calling the type'
EDITS = [
    ('typedload/dataloader.py',
     '    Loader for all the types taking a string as single constructor parameter\n    """\n    try:',
     '    Loader for all the types taking a string as single constructor parameter\n    """\n    if isinstance(value, type_):\n        return value\n    try:'),
]
DEMO = r"""
import ipaddress
from typedload import load
from typedload.exceptions import TypedloadException
try:
    v = load(ipaddress.IPv4Interface('1.2.3.4/8'), ipaddress.IPv4Address)
except TypedloadException:
    pass
else:
    assert type(v) is ipaddress.IPv4Address
"""
