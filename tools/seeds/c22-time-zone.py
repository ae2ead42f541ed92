PROPERTY = 'C22'
NEEDS = 'a time with a timezone, dumped as a list'
BREAKS = 'the timezone of a time is lost without an error'
EDITS = [
    ('typedload/datadumper.py',
     "    if value.tzinfo is not None:\n        raise NotImplementedError('Dumping of tzdata object is not supported')\n    if isinstance(value, datetime.time):\n        return [value.hour, value.minute, value.second, value.microsecond]\n",
     "    if isinstance(value, datetime.time):\n        return [value.hour, value.minute, value.second, value.microsecond]\n    if value.tzinfo is not None:\n        raise NotImplementedError('Dumping of tzdata object is not supported')\n"),
]
DEMO = r"""
import datetime
from typedload import dump
t = datetime.time(1, 2, tzinfo=datetime.timezone.utc)
assert dump(t, isodates=True) == '01:02:00+00:00'
try:
    dump(t)
except NotImplementedError:
    pass
else:
    raise SystemExit('accepted')
"""
