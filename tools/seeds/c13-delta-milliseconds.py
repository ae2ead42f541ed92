PROPERTY = 'C13'
NEEDS = 'a timedelta with microseconds that are not whole milliseconds'
BREAKS = 'a timedelta is rounded when dumped'
EDITS = [
    ('typedload/datadumper.py',
     '    return value.total_seconds()',
     '    return round(value.total_seconds(), 3)'),
]
DEMO = r"""
import datetime
from typedload import load, dump
d = datetime.timedelta(seconds=1, microseconds=1234)
assert load(dump(d), datetime.timedelta) == d
"""
