PROPERTY = 'C22'
NEEDS = 'a datetime with zero seconds and nonzero microseconds, dumped as ISO text and loaded back'
BREAKS = 'ISO text of datetimes without seconds is cut at the minutes, so microseconds get lost'
EDITS = [
    ('typedload/datadumper.py',
     '        return value.isoformat()\n',
     "        if isinstance(value, datetime.datetime) and not value.second:\n            # No need of zeroes\n            return value.isoformat(timespec='minutes')\n        return value.isoformat()\n"),
]
DEMO = r"""
import datetime
from typedload import dump, load
for d in (datetime.datetime(2020, 1, 2, 3, 4), datetime.datetime(2020, 1, 2, 3, 4, 0, 5), datetime.datetime(2020, 1, 2, 3, 4, 5, 6)):
    assert load(dump(d, isodates=True), datetime.datetime) == d
    assert dump(d, isodates=True) == d.isoformat()
"""
