PROPERTY = 'C18'
NEEDS = 'a tuple in which an earlier item equals the one that fails'
BREAKS = 'the index of the error is that of an equal item'
EDITS = [
    ('typedload/dataloader.py',
     "        index = next(ctr) - 2\n        annotation = Annotation(AnnotationType.INDEX, index)\n        e.trace.insert(0, TraceItem(value, type_, annotation))\n        raise e\n    except _NoHandlerError:\n",
     "        index = next(ctr) - 2\n        if isinstance(value, (list, tuple)) and e.value in value:\n            index = value.index(e.value)\n        annotation = Annotation(AnnotationType.INDEX, index)\n        e.trace.insert(0, TraceItem(value, type_, annotation))\n        raise e\n    except _NoHandlerError:\n"),
]
DEMO = r"""
from typing import *
from typedload import load
try:
    load(['a', 'a'], Tuple[str, int])
except ValueError as e:
    assert [i.annotation[1] for i in e.trace if i.annotation] == [1]
"""
