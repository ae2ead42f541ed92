PROPERTY = 'C27'
NEEDS = 'two threads that dump values of different types with the same dumper, switching between two assignments'
BREAKS = 'the last type and its function are kept in two attributes, so a thread can use the function of another type'
EDITS = [
    ('typedload/datadumper.py',
     "        t = type(value)\n        func = self._handlerscache.get(t)\n        if func is None:\n            index",
     "        t = type(value)\n        if t is self._lasttype:\n            # Same type as the previous value\n            return self._lastfunc(self, value, annotated_type)\n        func = self._handlerscache.get(t)\n        if func is None:\n            index"),
    ('typedload/datadumper.py',
     "            self._handlerscache[t] = func  # type: ignore\n",
     "            self._handlerscache[t] = func  # type: ignore\n        self._lasttype = t\n        self._lastfunc = func\n"),
    ('typedload/datadumper.py',
     "        self._dataclasscache = {}",
     "        self._lasttype = None  # type: Any\n        self._lastfunc = None  # type: Any\n        self._dataclasscache = {}"),
]
DEMO = r"""
import threading
from typedload.datadumper import Dumper
# one thread waits after each attribute that it changes
step = threading.Event()
go = threading.Event()
main = threading.current_thread()
class D(Dumper):
    def __setattr__(self, k, v):
        object.__setattr__(self, k, v)
        if threading.current_thread() is not main:
            step.set()
            go.wait(5)
d = D()
assert d.dump((1, 2)) == [1, 2]
assert d.dump(3) == 3
th = threading.Thread(target=lambda: d.dump((1, 2)))
th.start()
step.wait(1)
try:
    assert d.dump((4, 5)) == [4, 5]
finally:
    go.set()
    th.join()
"""
