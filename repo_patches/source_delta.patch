From cfb4fb8ed4eca0d8d20cff894962ebe4fb7f4664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 01/33] fix: use the value handler, not the key handler, for
 dictionary values on first use

When the handler of the value type was not cached yet, _dictload stored it in
key_f, so keys were loaded with the value handler (and value_f was unbound).
---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 7c8ff81..e903d24 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -393,7 +393,7 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
         value_f = value_handler
     else:
         try:
-            key_f = l._indexcache[value_type] = l.handlers[l.index(value_type)][1]
+            value_f = l._indexcache[value_type] = l.handlers[l.index(value_type)][1]
         except ValueError:
             raise TypedloadValueError(
                 'Cannot deal with value of type %s (value of %s)' % (tname(value_type), tname(type_)),
-- 
2.43.0


From 9df6010c241fc24583f06a21d80722d82ec7abc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 02/33] fix: raise typedload exceptions for out of range or non
 finite timedelta values

nan raises ValueError and inf or huge numbers raise OverflowError in the
timedelta constructor; both left load() as an AssertionError.
---
 typedload/dataloader.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index e903d24..83f3d4b 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -837,6 +837,10 @@ def _timedeltaload(l: Loader, value, type_) -> datetime.timedelta:
         return type_(0, value)
     except TypeError as e:
         raise TypedloadTypeError(str(e), type_=type_, value=value)
+    except ValueError as e:
+        raise TypedloadValueError(str(e), type_=type_, value=value)
+    except Exception as e:
+        raise TypedloadException(str(e), type_=type_, value=value)
 
 def _get_attr_converter_type(c: "Callable"):
     """
-- 
2.43.0


From 1d0e5609d62a704385a9ef2b3309ed41ef919b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 03/33] fix: raise typedload exceptions for dates with
 components too large for C

date(10**400, 1, 1) raises OverflowError, which left load() as an
AssertionError.
---
 typedload/dataloader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 83f3d4b..02084da 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -817,6 +817,8 @@ def _datetimeload(l: Loader, value: Any, type_) -> Union[datetime.date, datetime
         raise TypedloadTypeError(str(e), type_=type_, value=value)
     except ValueError as e:
         raise TypedloadValueError(str(e), type_=type_, value=value)
+    except Exception as e:
+        raise TypedloadException(str(e), type_=type_, value=value)
 
 
 def _patternload(l: Loader, value: Any, type_) -> re.Pattern:
-- 
2.43.0


From b862800997ff74b5d4e474bf54df8d94a51ab516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 04/33] fix: raise typedload exceptions for patterns that re
 cannot represent

re.compile('a{99999999999999}') raises OverflowError, not re.error, which left
load() as an AssertionError.
---
 typedload/dataloader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 02084da..6139574 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -832,6 +832,8 @@ def _patternload(l: Loader, value: Any, type_) -> re.Pattern:
         raise TypedloadException(str(e), value=value, type_=type_)
     except TypeError as e:
         raise TypedloadTypeError(str(e), value=value, type_=type_)
+    except Exception as e:
+        raise TypedloadException(str(e), value=value, type_=type_)
 
 
 def _timedeltaload(l: Loader, value, type_) -> datetime.timedelta:
-- 
2.43.0


From b2525d0bd8027833a92e87202580348265e46704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 05/33] fix: check the declared text kind of re.Pattern[str]
 and re.Pattern[bytes]

The test looked at the builtin type instead of type_, so the declared kind was
never enforced.
---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 6139574..02fc4e0 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -822,7 +822,7 @@ def _datetimeload(l: Loader, value: Any, type_) -> Union[datetime.date, datetime
 
 
 def _patternload(l: Loader, value: Any, type_) -> re.Pattern:
-    if hasattr(type, "__args__"):
+    if hasattr(type_, "__args__"):
         (input_type,) = type_.__args__
         if input_type in {bytes, str} and type(value) != input_type:
             raise TypedloadValueError('Got %s of type %s, expected %s' % (repr(value), tname(type(value)), tname(type_)), value=value, type_=type_)
-- 
2.43.0


From 1ea7ca3321ec702108437dfbbce1fd1baa0166ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 06/33] fix: do not crash on unhashable values in the tag field
 of a union

{'t': []} loaded into a tagged union raised TypeError, which left load() as an
AssertionError.
---
 typedload/dataloader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 02fc4e0..7f65e69 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -702,7 +702,11 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
         # Cache is created, use it
         # It's a tuple key, {value: type}
         if discriminatorscache[1]:
-            preferredtype = discriminatorscache[1].get(value.get(discriminatorscache[0]))
+            try:
+                preferredtype = discriminatorscache[1].get(value.get(discriminatorscache[0]))
+            except TypeError:
+                # Not hashable, so it is not one of the literals
+                preferredtype = None
             if preferredtype:
                 # Place best value on top
                 sorted_args.remove(preferredtype)
-- 
2.43.0


From 5c5da8c9649186017df7665c3dabcb30f3a0c4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 07/33] fix: raise TypedloadTypeError for values without a
 length loaded into a tuple

load(1, Tuple[int, str]) raised TypeError in len(), which left load() as an
AssertionError.
---
 typedload/dataloader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 7f65e69..73ad309 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -434,9 +434,13 @@ def _tupleload(l: Loader, value: Any, type_) -> Tuple:
     # Tuple[something, something, somethingelse]
     if isinstance(value, dict):
         raise TypedloadTypeError('Unable to load dictionary as a tuple', value=value, type_=type_)
-    if l.failonextra and len(value) > len(args):
+    try:
+        length = len(value)
+    except TypeError as e:
+        raise TypedloadTypeError(str(e), value=value, type_=type_)
+    if l.failonextra and length > len(args):
         raise TypedloadValueError('Value is too long for type %s' % tname(type_), value=value, type_=type_)
-    elif len(value) < len(args):
+    elif length < len(args):
         raise TypedloadValueError('Value is too short for type %s' % tname(type_), value=value, type_=type_)
 
     ctr = count(1)  # Keep track of the position in the tuple
-- 
2.43.0


From 676d878eee712d2137b6c36a6b254714ff32281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:35 +0000
Subject: [PATCH 08/33] fix: failonextra with extra keys that are not strings

Joining the names raised TypeError, which left load() as an AssertionError.
---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 73ad309..1035c4f 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -572,7 +572,7 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
         )
 
     if l.failonextra and len(extra_fields := vfields.difference(fields)):
-        extra = ', '.join(extra_fields)
+        extra = ', '.join(map(str, extra_fields))
         raise TypedloadValueError(
             'Dictionary has unrecognized fields: %s and cannot be loaded into %s' % (extra, tname(type_)),
             value=value,
-- 
2.43.0


From 49d5b5e950f76247da78e58fd6dbf7e170c7997b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:56 +0000
Subject: [PATCH 09/33] fix: keep the trace of a TypedloadAttributeError raised
 inside a dictionary

TypedloadAttributeError is an AttributeError, so an error raised while loading
a key or value was caught and replaced by one about the whole dictionary,
without trace.
---
 typedload/dataloader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 1035c4f..7156ff6 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -418,6 +418,8 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
         return {
             l.load(k, key_type, annotation=Annotation(AnnotationType.KEY, k)): l.load(v, value_type, annotation=Annotation(AnnotationType.VALUE, v))
             for k, v in value.items()}
+    except TypedloadException:
+        raise
     except AttributeError as e:
         raise TypedloadAttributeError(str(e), type_=type_, value=value)
 
-- 
2.43.0


From 2ceded1f9fa456d82d133f7e5839029358199a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 10/33] fix: raise TypedloadTypeError when a loaded dictionary
 key is not hashable

The TypeError left load() as an AssertionError.
---
 typedload/dataloader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 7156ff6..3579748 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -422,6 +422,9 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
         raise
     except AttributeError as e:
         raise TypedloadAttributeError(str(e), type_=type_, value=value)
+    except TypeError as e:
+        # The loaded key is not hashable
+        raise TypedloadTypeError(str(e), type_=type_, value=value)
 
 
 def _tupleload(l: Loader, value: Any, type_) -> Tuple:
-- 
2.43.0


From 0f4e719da8925646f6fc40d89413db2a437eb9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 11/33] fix: do not modify the annotations of a TypedDict class
 when loading it

NotRequired was removed from __annotations__ of the user's class.
---
 typedload/dataloader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 3579748..6ddb7a6 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -652,6 +652,7 @@ def _typeddictload(l: Loader, value: Any, type_) -> Any:
         necessary_fields = fields
 
     # Resolve the NotRequired stuff
+    type_hints = dict(type_hints)  # The annotations of the class must not be changed
     for k, v in type_hints.items():
         if is_notrequired(v):
             type_hints[k] = notrequiredtype(v)
-- 
2.43.0


From 40649fb0a06e7e0b8c7470d6bb550d63d1e870b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 12/33] fix: expose value and type_ when the constructor of an
 object rejects the fields

---
 typedload/dataloader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 6ddb7a6..08a75e4 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -613,9 +613,9 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
     try:
         return type_(**params)
     except TypeError as e:
-        raise TypedloadTypeError(e)
+        raise TypedloadTypeError(str(e), value=value, type_=type_)
     except ValueError as e:
-        raise TypedloadValueError(e)
+        raise TypedloadValueError(str(e), value=value, type_=type_)
 
 
 def _namedtupleload(l: Loader, value: Any, type_) -> Any:
-- 
2.43.0


From 943c1ecbe7ce6f187501b61050f28a2cc44dd377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:57 +0000
Subject: [PATCH 13/33] fix: print the full path of errors in nested unions

_subexceptions ignored the path prefix it was given, so below the first level
only the last part of the path was printed.
---
 typedload/exceptions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/exceptions.py b/typedload/exceptions.py
index a485bcb..3e80c16 100644
--- a/typedload/exceptions.py
+++ b/typedload/exceptions.py
@@ -126,9 +126,9 @@ class TypedloadException(Exception):
         msg = spaces + 'Exceptions:\n'
         for i in self.exceptions:
             msg += i._firstline(indent + 1) + '\n'
-            msg += spaces + '  ' 'Path: ' + self._path(self.trace + i.trace[1:]) + '\n'
+            msg += spaces + '  ' 'Path: ' + self._path(trace + i.trace[1:]) + '\n'
             if i.exceptions:
-                msg += i._subexceptions(indent + 1, self.trace + i.trace[1:])
+                msg += i._subexceptions(indent + 1, trace + i.trace[1:])
         return msg
 
     def _firstline(self, indent: int) -> str:
-- 
2.43.0


From b457be109b56706cf82ceb8a756014816f07cbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 14/33] fix: dump attrs classes that have a factory default
 with takes_self

The factory was called without the instance, and dump() raised TypeError.
---
 typedload/datadumper.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index cdf3664..53dc841 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -214,8 +214,10 @@ def _attrdump(d, value, t) -> Dict[str, Any]:
         if d.hidedefault:
             if attrval == attr.default:
                 continue
-            elif hasattr(attr.default, 'factory') and attrval == attr.default.factory():
-                continue
+            elif hasattr(attr.default, 'factory'):
+                factory = attr.default
+                if attrval == (factory.factory(value) if factory.takes_self else factory.factory()):
+                    continue
         name = attr.metadata.get(d.mangle_key, attr.name)
         r[name] = d.dump(attrval)
     return r
-- 
2.43.0


From ad4e0090cd5dbb234d4b697e31364a51006d3fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 15/33] fix: load argparse.Namespace into classes that have
 renamed fields

The renaming was applied before the conversion to dictionary, and failed
because Namespace has no items().
---
 typedload/dataloader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 08a75e4..6215408 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -526,7 +526,7 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
         l._objfieldscache[type_] = (fields, necessary_fields, type_hints, transforms)
 
     try:
-        value = _mangle_names(transforms, value, l.failonextra)
+        value = _mangle_names(transforms, _dictequivalence(l, value) if transforms else value, l.failonextra)
     except ValueError as e:
         raise TypedloadValueError(str(e), value=value, type_=type_)
     except AttributeError as e:
@@ -893,7 +893,7 @@ def _attrload(l: Loader, value: Any, type_) -> Any:
             namesmap[attribute.metadata[l.mangle_key]] = attribute.name
 
     try:
-        value = _mangle_names(namesmap, value, l.failonextra)
+        value = _mangle_names(namesmap, _dictequivalence(l, value) if namesmap else value, l.failonextra)
     except ValueError as e:
         raise TypedloadValueError(str(e), value=value, type_=type_)
     except AttributeError as e:
-- 
2.43.0


From 1164e5d11143857c417fa8b9efb067c2269f99cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:27 +0000
Subject: [PATCH 16/33] fix: resolve references by name to types that were not
 loaded with load()

The handlers of lists, dictionaries, unions and objects call the handlers of
the inner types directly, skipping load(), so the names of those types were
never recorded and List[Node], for a Node that refers to itself, failed with
"ForwardRef 'Node' unknown".
---
 typedload/dataloader.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 6215408..ca36918 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -257,6 +257,9 @@ class Loader:
                     raise
                 match = False
             if match:
+                # Add type to known types, to resolve ForwardRef later on
+                if self.frefs is not None and hasattr(type_, '__name__'):
+                    self.frefs.setdefault(type_.__name__, type_)
                 return i
         raise ValueError('No matching condition found')
 
@@ -289,12 +292,6 @@ class Loader:
 
             func = self._indexcache[type_] = self.handlers[index][1]
 
-            # Add type to known types, to resolve ForwardRef later on
-            if self.frefs is not None and hasattr(type_, '__name__'):
-                typename = type_.__name__
-                if typename not in self.frefs:
-                    self.frefs[typename] = type_
-
         try:
             return func(self, value, type_)
         except Exception as e:
-- 
2.43.0


From 15af8cb082fcb652824ac5e34e762eb22f06f162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:09 +0000
Subject: [PATCH 17/33] fix: report values that have no printable form

repr() and str() raise ValueError on integers of more than 4300 digits, so
building the error message, or rendering the exception, failed.
---
 typedload/datadumper.py |  3 ++-
 typedload/dataloader.py | 10 +++++-----
 typedload/exceptions.py |  7 ++++++-
 typedload/helpers.py    | 13 +++++++++++++
 4 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index 53dc841..d9dda1d 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -30,6 +30,7 @@ from typing import *
 import uuid
 
 from .exceptions import TypedloadValueError
+from .helpers import printable
 from .typechecks import is_attrs, NONETYPE
 
 
@@ -175,7 +176,7 @@ class Dumper:
                 match = False
             if match:
                 return i
-        raise TypedloadValueError('Unable to dump %s' % value, value=value, type_=type(value))
+        raise TypedloadValueError('Unable to dump %s' % printable(value, str), value=value, type_=type(value))
 
     def dump(self, value: Any, annotated_type=Any) -> Any:
         """
diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index ca36918..ba2f1c1 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -34,7 +34,7 @@ import uuid
 from .exceptions import *
 from .typechecks import *
 from .typechecks import discriminatorliterals
-from .helpers import tname
+from .helpers import printable, tname
 
 
 __all__ = [
@@ -355,7 +355,7 @@ def _basicload(l: Loader, value: Any, type_) -> Any:
             except Exception as e:
                 raise TypedloadException(str(e), value=value, type_=type_)
         else:
-            raise TypedloadValueError('Got %s of type %s, expected %s' % (repr(value), tname(type(value)), tname(type_)), value=value, type_=type_)
+            raise TypedloadValueError('Got %s of type %s, expected %s' % (printable(value), tname(type(value)), tname(type_)), value=value, type_=type_)
     return value
 
 
@@ -574,7 +574,7 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
         )
 
     if l.failonextra and len(extra_fields := vfields.difference(fields)):
-        extra = ', '.join(map(str, extra_fields))
+        extra = ', '.join(printable(i, str) for i in extra_fields)
         raise TypedloadValueError(
             'Dictionary has unrecognized fields: %s and cannot be loaded into %s' % (extra, tname(type_)),
             value=value,
@@ -795,7 +795,7 @@ def _enumload(l: Loader, value: Any, type_) -> Enum:
         except Exception as e:
             exceptions.append(e)
     if len(type_.__members__) <= 10 and all(type(i.value) in l.basictypes for i in type_.__members__.values()):
-        lst = '\nValue %s not between: ' % repr(value) + \
+        lst = '\nValue %s not between: ' % printable(value) + \
         ', '.join(repr(i.value) for i in type_.__members__.values())
     else:
         lst = ''
@@ -836,7 +836,7 @@ def _patternload(l: Loader, value: Any, type_) -> re.Pattern:
     if hasattr(type_, "__args__"):
         (input_type,) = type_.__args__
         if input_type in {bytes, str} and type(value) != input_type:
-            raise TypedloadValueError('Got %s of type %s, expected %s' % (repr(value), tname(type(value)), tname(type_)), value=value, type_=type_)
+            raise TypedloadValueError('Got %s of type %s, expected %s' % (printable(value), tname(type(value)), tname(type_)), value=value, type_=type_)
     try:
         return re.compile(value)
     except re.error as e:
diff --git a/typedload/exceptions.py b/typedload/exceptions.py
index 3e80c16..05736b9 100644
--- a/typedload/exceptions.py
+++ b/typedload/exceptions.py
@@ -24,6 +24,8 @@ Exceptions
 from enum import Enum
 from typing import Any, List, NamedTuple, Optional, Type, Union
 
+from .helpers import printable
+
 
 __all__ = [
     'TypedloadException',
@@ -109,7 +111,10 @@ class TypedloadException(Exception):
         path = []
         for i in trace:
             if i.annotation:
-                path.append('[%d]' % i.annotation[1] if isinstance(i.annotation[1], int) else str(i.annotation[1]))
+                if isinstance(i.annotation[1], int):
+                    path.append(printable(i.annotation[1], lambda x: '[%d]' % x))
+                else:
+                    path.append(printable(i.annotation[1], str))
             else:
                 path.append(str(None))
         if len(path) == 1 and path[0] == str(None):
diff --git a/typedload/helpers.py b/typedload/helpers.py
index 1aa8d71..1cc135b 100644
--- a/typedload/helpers.py
+++ b/typedload/helpers.py
@@ -26,6 +26,7 @@ from typing import Any, Tuple, Union, Set, List, Dict, Type, FrozenSet
 
 
 __all__ = [
+    'printable',
     'tname',
 ]
 
@@ -35,3 +36,15 @@ def tname(type_) -> str:
     Return a nice string for a type
     '''
     return getattr(type_, '__qualname__', str(type_))
+
+
+def printable(value: Any, function=repr) -> str:
+    '''
+    Text of a value, to be used in error messages.
+
+    It never fails, while repr() and str() do, for example on very large integers.
+    '''
+    try:
+        return function(value)
+    except Exception:
+        return '<%s object>' % tname(type(value))
-- 
2.43.0


From ddd957166f49c6c50e7b609d16fba464cba29a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 18/33] fix: load namespaces with attributes named like the
 methods of a dictionary

---
 typedload/dataloader.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index ba2f1c1..e2aa8f4 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -528,6 +528,8 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
         raise TypedloadValueError(str(e), value=value, type_=type_)
     except AttributeError as e:
         raise TypedloadAttributeError(str(e), value=value, type_=type_)
+    except TypeError as e:
+        raise TypedloadTypeError(str(e), value=value, type_=type_)
 
     return _objloader(l, fields, necessary_fields, type_hints, value, type_)
 
@@ -552,16 +554,16 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
     '''
     Helper function to load dict-like data into an object.
     '''
+    value = _dictequivalence(l, value)
+
     try:
         vfields = set(value.keys())
+        items = value.items()
     except AttributeError as e:
-        newvalue = _dictequivalence(l, value)
-
-        if newvalue is value:
-            raise TypedloadAttributeError(str(e), value=value, type_=type_)
-        else:
-            value = newvalue
-            vfields = set(value.keys())
+        raise TypedloadAttributeError(str(e), value=value, type_=type_)
+    except TypeError as e:
+        # keys or items are there, but they are not methods
+        raise TypedloadTypeError(str(e), value=value, type_=type_)
 
     if len(necessary_fields.intersection(vfields)) != len(necessary_fields):
         raise TypedloadValueError(
@@ -582,7 +584,7 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
         )
 
     params = {}
-    for k, v in value.items():
+    for k, v in items:
         if k not in fields:
             # Field in value is not in the type
             continue
@@ -895,6 +897,8 @@ def _attrload(l: Loader, value: Any, type_) -> Any:
         raise TypedloadValueError(str(e), value=value, type_=type_)
     except AttributeError as e:
         raise TypedloadAttributeError(str(e), value=value, type_=type_)
+    except TypeError as e:
+        raise TypedloadTypeError(str(e), value=value, type_=type_)
 
     return _objloader(l, fields, necessary_fields, type_hints, value, type_)
 
-- 
2.43.0


From 650844041267a34f8ae6395dfe5db29b7f4a1bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:03 +0000
Subject: [PATCH 19/33] fix: accept None as a type, as documented

---
 typedload/typechecks.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/typechecks.py b/typedload/typechecks.py
index 3bcc7ee..51a4997 100644
--- a/typedload/typechecks.py
+++ b/typedload/typechecks.py
@@ -142,9 +142,9 @@ def is_optional(type_: Any) -> bool:
 
 def is_nonetype(type_: Any) -> bool:
     '''
-    type_ == type(None)
+    type_ == type(None) or None itself, which means the same in an annotation
     '''
-    return type_ == NONETYPE
+    return type_ is None or type_ == NONETYPE
 
 
 def _generic_type_check(type_: Any, native, from_typing) -> bool:
-- 
2.43.0


From 53bbe9bfee360f4c81030c74c6be1f70455362e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:58 +0000
Subject: [PATCH 20/33] fix: dump dataclasses that refer to classes by name

get_type_hints() on an instance has no access to the names of its module, so
dump() raised NameError for any dataclass with a forward reference.
---
 typedload/datadumper.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index d9dda1d..48bb838 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -271,7 +271,11 @@ def _dataclassdump(d: Dumper, value, t) -> Dict[str, Any]:
         field_defaults = {k: v.default for k,v in value.__dataclass_fields__.items() if not isinstance (v.default, DT_MISSING_TYPE)}
         field_factories = {k: v.default_factory() for k,v in value.__dataclass_fields__.items() if not isinstance (v.default_factory, DT_MISSING_TYPE)}
         defaults = {**field_defaults, **field_factories} # Merge the two dictionaries
-        type_hints = get_type_hints(value)
+        try:
+            type_hints = get_type_hints(t)
+        except Exception:
+            # Names that can't be resolved. Hints are only used for speed.
+            type_hints = {}
         d._dataclasscache[t] = (fields, defaults, type_hints)
     else:
         fields, defaults, type_hints = cached
-- 
2.43.0


From 6792f0535a0fc43f79a6b283c259e03797b35756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:02 +0000
Subject: [PATCH 21/33] fix: dump the fields of dataclasses in their order

They were iterated as a set, so their order changed from run to run, and
loading the dump failed at random when a field refers by name to a class that
is known from a previous field.
---
 typedload/datadumper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index 48bb838..84abeee 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -155,7 +155,7 @@ class Dumper:
         ]  # type: List[Tuple[Callable[[Any], bool], Callable[['Dumper', Any, Any], Any]|Callable[['Dumper', Any], Any]]]
 
         self._handlerscache = {}  # type: Dict[Type[Any], Callable[['Dumper', Any, Any], Any]]
-        self._dataclasscache = {}  # type: Dict[Type[Any], Tuple[Set[str], Dict[str, Any], Dict[str, Any]]]
+        self._dataclasscache = {}  # type: Dict[Type[Any], Tuple[Tuple[str, ...], Dict[str, Any], Dict[str, Any]]]
 
         for k, v in kwargs.items():
             setattr(self, k, v)
@@ -267,7 +267,7 @@ def _dataclassdump(d: Dumper, value, t) -> Dict[str, Any]:
     cached = d._dataclasscache.get(t)
     if cached is None:
         from dataclasses import _MISSING_TYPE as DT_MISSING_TYPE
-        fields = set(value.__dataclass_fields__.keys())
+        fields = tuple(value.__dataclass_fields__.keys())
         field_defaults = {k: v.default for k,v in value.__dataclass_fields__.items() if not isinstance (v.default, DT_MISSING_TYPE)}
         field_factories = {k: v.default_factory() for k,v in value.__dataclass_fields__.items() if not isinstance (v.default_factory, DT_MISSING_TYPE)}
         defaults = {**field_defaults, **field_factories} # Merge the two dictionaries
-- 
2.43.0


From c0b94c1cf9c8f364b403023963f4ca4298c1af6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:16 +0000
Subject: [PATCH 22/33] fix: do not mix up unions that differ in the order of
 their types

Union[A, B] == Union[B, A], so a loader that had loaded one of them used its
cached preference of types for the other one too, and gave another result than
a new loader when the literals of A and B overlap.
---
 typedload/dataloader.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index e2aa8f4..a2ad939 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -240,7 +240,8 @@ class Loader:
 
         self._objfieldscache = {}  # type: Dict[Type, Tuple[Set[str], Set[str], Dict[str, Type], Dict[str, str]]]
 
-        self._unionload_discriminatorcache = {}  # type: Dict[Type, Tuple[Optional[str], Optional[Dict[Any, Type]]]]
+        # Unions that differ in the order of their types are equal, so the types are the keys
+        self._unionload_discriminatorcache = {}  # type: Dict[Tuple[Type, ...], Tuple[Optional[str], Optional[Dict[Any, Type]]]]
 
     def index(self, type_: Type[T]) -> int:
         """
@@ -688,7 +689,7 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
     if hasattr(value, 'get'):
         # Seems we have an object
         # Bump up if the Literal field matches
-        discriminatorscache = l._unionload_discriminatorcache.get(type_)  # type: Optional[Tuple[Optional[str], Optional[Dict[Any, Type]]]]
+        discriminatorscache = l._unionload_discriminatorcache.get(args)  # type: Optional[Tuple[Optional[str], Optional[Dict[Any, Type]]]]
 
         # First time generate the deep inspection for literal
         if discriminatorscache is None:
@@ -706,7 +707,7 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
                 discriminatorscache = key, cachedict
             else:
                 discriminatorscache = None, None
-            l._unionload_discriminatorcache[type_] = discriminatorscache
+            l._unionload_discriminatorcache[args] = discriminatorscache
 
         # Cache is created, use it
         # It's a tuple key, {value: type}
-- 
2.43.0


From 8f4954cd3c9a007884714f350969535086c7da1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:43 +0000
Subject: [PATCH 23/33] fix: report the enum attempts whose value is not in the
 enum as typedload exceptions

---
 typedload/dataloader.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index a2ad939..060f5fe 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -793,10 +793,19 @@ def _enumload(l: Loader, value: Any, type_) -> Enum:
     # Try with the typing hints
     exceptions = []
     for _, t in get_type_hints(type_).items():
+        annotation = Annotation(AnnotationType.UNION, t)
         try:
-            return type_(l.load(value, t, annotation=Annotation(AnnotationType.UNION, t)))
-        except Exception as e:
+            return type_(l.load(value, t, annotation=annotation))
+        except TypedloadException as e:
             exceptions.append(e)
+        except Exception as e:
+            # Loaded, but it is not a value of the Enum
+            exceptions.append(TypedloadValueError(
+                printable(e, str),
+                trace=[TraceItem(value, t, annotation)],
+                value=value,
+                type_=t
+            ))
     if len(type_.__members__) <= 10 and all(type(i.value) in l.basictypes for i in type_.__members__.values()):
         lst = '\nValue %s not between: ' % printable(value) + \
         ', '.join(repr(i.value) for i in type_.__members__.values())
-- 
2.43.0


From 4ac01b71015823ccbfde4247d9454d7bcee5f03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:55 +0000
Subject: [PATCH 24/33] fix: do not treat a ValueError raised by a condition as
 a missing handler

---
 typedload/dataloader.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 060f5fe..a7beaf2 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -45,6 +45,14 @@ __all__ = [
 T = TypeVar('T')
 
 
+class _NoHandlerError(ValueError):
+    """
+    No handler matches a type.
+
+    Not to be mistaken for a ValueError raised by a condition.
+    """
+
+
 class Loader:
     """
     A loader object that recursively loads data into
@@ -262,7 +270,7 @@ class Loader:
                 if self.frefs is not None and hasattr(type_, '__name__'):
                     self.frefs.setdefault(type_.__name__, type_)
                 return i
-        raise ValueError('No matching condition found')
+        raise _NoHandlerError('No matching condition found')
 
     def load(self, value: Any, type_: Type[T], *, annotation: Optional[Annotation] = None) -> T:
         """
@@ -284,7 +292,7 @@ class Loader:
         else:
             try:
                 index = self.index(type_)
-            except ValueError:
+            except _NoHandlerError:
                 raise TypedloadTypeError(
                     'Cannot deal with value of type %s' % tname(type_),
                     value=value,
@@ -378,7 +386,7 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
     else:
         try:
             key_f = l._indexcache[key_type] = l.handlers[l.index(key_type)][1]
-        except ValueError:
+        except _NoHandlerError:
             raise TypedloadValueError(
                 'Cannot deal with value of type %s (key of %s)' % (tname(key_type), tname(type_)),
                 value=value,
@@ -392,7 +400,7 @@ def _dictload(l: Loader, value: Any, type_) -> Dict:
     else:
         try:
             value_f = l._indexcache[value_type] = l.handlers[l.index(value_type)][1]
-        except ValueError:
+        except _NoHandlerError:
             raise TypedloadValueError(
                 'Cannot deal with value of type %s (value of %s)' % (tname(value_type), tname(type_)),
                 value=value,
@@ -598,7 +606,7 @@ def _objloader(l: Loader, fields: Set[str], necessary_fields: Set[str], type_hin
         else:
             try:
                 loader_f = l._indexcache[field_type] = l.handlers[l.index(field_type)][1]
-            except ValueError:
+            except _NoHandlerError:
                 raise TypedloadTypeError(
                     'Cannot deal with value of type %s' % tname(field_type),
                     value=value,
@@ -734,7 +742,7 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
             else:
                 try:
                     f = l._indexcache[t] = l.handlers[l.index(t)][1]
-                except ValueError:
+                except _NoHandlerError:
                     raise TypedloadValueError(
                         'Cannot deal with value of type %s (key of %s)' % (tname(t), tname(type_)),
                         value=value,
@@ -950,7 +958,7 @@ def _iterload(l: Loader, value: Any, type_, function) -> Any:
     else:
         try:
             f = l._indexcache[t] = l.handlers[l.index(t)][1]
-        except ValueError:
+        except _NoHandlerError:
             raise TypedloadTypeError(
                 'Cannot deal with value of type %s' % tname(t),
                 value=value,
-- 
2.43.0


From 79af32077f3c350f4beb34bf7fc78baedafa3e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:32 +0000
Subject: [PATCH 25/33] fix: load dataclass fields whose external name is empty

---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index a7beaf2..acb5b55 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -527,7 +527,7 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
         for pyname in fields:
             if type_.__dataclass_fields__[pyname].metadata:
                 name = type_.__dataclass_fields__[pyname].metadata.get(l.mangle_key)
-                if name:
+                if name is not None:
                     transforms[name] = pyname
         l._objfieldscache[type_] = (fields, necessary_fields, type_hints, transforms)
 
-- 
2.43.0


From 2a8930ea62ce0918ec9615b4fd83ce97f24d596b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:56 +0000
Subject: [PATCH 26/33] fix: honour NotRequired in typed dictionaries with
 postponed annotations

---
 typedload/dataloader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index acb5b55..5d99327 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -28,6 +28,7 @@ from itertools import compress, count, repeat
 from functools import reduce
 from pathlib import Path
 import re
+import sys
 from typing import *
 import uuid
 
@@ -661,7 +662,12 @@ def _typeddictload(l: Loader, value: Any, type_) -> Any:
 
     # Resolve the NotRequired stuff
     type_hints = dict(type_hints)  # The annotations of the class must not be changed
-    for k, v in type_hints.items():
+    if l.pep563 and sys.version_info >= (3, 9):
+        # The resolved hints come without NotRequired
+        marked_hints = get_type_hints(type_, include_extras=True)
+    else:
+        marked_hints = dict(type_hints)
+    for k, v in marked_hints.items():
         if is_notrequired(v):
             type_hints[k] = notrequiredtype(v)
             necessary_fields.discard(k)
-- 
2.43.0


From fa156ba5dd5acc34f85867e2efe9b3ce74e99a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:41 +0000
Subject: [PATCH 27/33] fix: class variables of dataclasses are not fields

A ClassVar was treated as a field: without a value it was required (and then
refused), its name in the data was an error instead of an extra field, and it
was dumped, so the dump could not be loaded back.
---
 typedload/datadumper.py | 4 +++-
 typedload/dataloader.py | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/typedload/datadumper.py b/typedload/datadumper.py
index 84abeee..920fac8 100644
--- a/typedload/datadumper.py
+++ b/typedload/datadumper.py
@@ -267,7 +267,9 @@ def _dataclassdump(d: Dumper, value, t) -> Dict[str, Any]:
     cached = d._dataclasscache.get(t)
     if cached is None:
         from dataclasses import _MISSING_TYPE as DT_MISSING_TYPE
-        fields = tuple(value.__dataclass_fields__.keys())
+        from dataclasses import _FIELD_CLASSVAR as DT_FIELD_CLASSVAR  # type: ignore
+        # Class variables are not fields
+        fields = tuple(k for k,v in value.__dataclass_fields__.items() if v._field_type is not DT_FIELD_CLASSVAR)
         field_defaults = {k: v.default for k,v in value.__dataclass_fields__.items() if not isinstance (v.default, DT_MISSING_TYPE)}
         field_factories = {k: v.default_factory() for k,v in value.__dataclass_fields__.items() if not isinstance (v.default_factory, DT_MISSING_TYPE)}
         defaults = {**field_defaults, **field_factories} # Merge the two dictionaries
diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 5d99327..fd59dec 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -511,8 +511,11 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
     if cached:
         fields, necessary_fields, type_hints, transforms = cached
     else:
-        fields = set(type_.__dataclass_fields__.keys())
+        from dataclasses import _FIELD_CLASSVAR as DT_FIELD_CLASSVAR  # type: ignore
+        # Class variables are not fields
+        fields = {k for k,v in type_.__dataclass_fields__.items() if v._field_type is not DT_FIELD_CLASSVAR}
         necessary_fields = {k for k,v in type_.__dataclass_fields__.items() if
+                            k in fields and
                             v.init == True and # Is a field for the constructor
                             v.default == v.default_factory # Has no default or factory
                             }
-- 
2.43.0


From 1ca6bbe216ac2232daf49ef74006eb7fb19a8258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:06 +0000
Subject: [PATCH 28/33] fix: white space at the end of the last path of an
 exception was left out

---
 typedload/exceptions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/exceptions.py b/typedload/exceptions.py
index 05736b9..ba9c5fd 100644
--- a/typedload/exceptions.py
+++ b/typedload/exceptions.py
@@ -147,7 +147,7 @@ class TypedloadException(Exception):
         msg = self._firstline(0)
         msg += '\nPath: ' + self._path(self.trace)
         if self.exceptions:
-            msg += '\n' + self._subexceptions(0, self.trace).rstrip()
+            msg += '\n' + self._subexceptions(0, self.trace)[:-1]
         return msg
 
 
-- 
2.43.0


From a2c9e7ec78a45e12219bca0d6d2099ad60c06ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:25 +0000
Subject: [PATCH 29/33] fix: fields of subclasses of a NamedTuple were not
 loaded

A subclass has no annotations of its own, so it was considered to have
no fields, and annotations that it did have were considered fields.
---
 typedload/dataloader.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index fd59dec..07b81f3 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -637,7 +637,12 @@ def _namedtupleload(l: Loader, value: Any, type_) -> Any:
     if l.pep563:
         type_hints = get_type_hints(type_)
     else:
-        type_hints = type_.__annotations__
+        # A subclass does not have the annotations of the NamedTuple
+        type_hints = {}
+        for i in reversed(type_.__mro__):
+            type_hints.update(getattr(i, '__annotations__', {}))
+    # The subclass can have annotations that are not fields
+    type_hints = {k: v for k, v in type_hints.items() if k in type_._fields}
     fields = set(type_hints.keys())
     optional_fields = set(getattr(type_, '_field_defaults', {}).keys())
     necessary_fields = fields.difference(optional_fields)
-- 
2.43.0


From d1e64837c9649cb420d65df0a94c370770f0f09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:27 +0000
Subject: [PATCH 30/33] fix: type of the parameter of attrs converters

It was taken from all the hints of the converter: one that only has a
hint for its result left load() as AssertionError, and so did callable
objects, partials and attrs.Converter. Converters with hints on other
parameters, or classes with annotations, got the wrong type.
---
 typedload/dataloader.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 07b81f3..39383dc 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -25,7 +25,8 @@ import datetime
 from enum import Enum
 import ipaddress
 from itertools import compress, count, repeat
-from functools import reduce
+from functools import partial, reduce
+from inspect import Parameter, isroutine, signature
 from pathlib import Path
 import re
 import sys
@@ -899,12 +900,27 @@ def _get_attr_converter_type(c: "Callable"):
 
     If it's typed, return the type of the parameter. Otherwise return Any
     """
-    hints = get_type_hints(c)
-    if len(hints) > 0 and len(hints) <= 2:
-        if 'return' in hints:
-            del hints['return']
-        return next(iter(hints.values()))
-    return Any
+    import attr
+    if isinstance(c, getattr(attr, 'Converter', ())):
+        c = c.converter
+
+    try:
+        parameter = next(iter(signature(c).parameters.values()))
+    except (StopIteration, TypeError, ValueError):
+        # Probably a builtin type, that has no signature
+        return Any
+    if parameter.annotation is Parameter.empty:
+        return Any
+
+    # The function that has the type hints
+    f = c
+    while isinstance(f, partial):
+        f = f.func
+    if isinstance(f, type):
+        f = f.__init__
+    elif not isroutine(f):
+        f = type(f).__call__
+    return get_type_hints(f).get(parameter.name, parameter.annotation)
 
 
 def _attrload(l: Loader, value: Any, type_) -> Any:
-- 
2.43.0


From 28eeb45b12f56b861a4035260e28d3e5f8d9a207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:15 +0000
Subject: [PATCH 31/33] fix: choose the tag of a union independently of the
 hash seed

---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 39383dc..8dbab7d 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -723,7 +723,7 @@ def _unionload(l: Loader, value: Any, type_) -> Any:
 
             cachedict = {}
             if keys:
-                key = keys.pop()
+                key = min(keys)  # Always the same one, sets have no order
                 for t, d in data.items():
                     for literal in d[key]:
                         cachedict[literal] = t
-- 
2.43.0


From c6cffaf7ba0da7844d2f0302017939541cdc03cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:15 +0000
Subject: [PATCH 32/33] fix: apply the external names of a dataclass in the
 order of the fields

---
 typedload/dataloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 8dbab7d..63e45ac 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -529,7 +529,7 @@ def _dataclassload(l: Loader, value: Dict[str, Any], type_) -> Any:
 
         # Prepare the list of the needed name changes
         transforms = {}
-        for pyname in fields:
+        for pyname in (k for k in type_.__dataclass_fields__ if k in fields):
             if type_.__dataclass_fields__[pyname].metadata:
                 name = type_.__dataclass_fields__[pyname].metadata.get(l.mangle_key)
                 if name is not None:
-- 
2.43.0


From adb35d4ea2b87c97483edc9621350eaa4cbc6020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:15 +0000
Subject: [PATCH 33/33] fix: say which type is not supported in a tuple

---
 typedload/dataloader.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/typedload/dataloader.py b/typedload/dataloader.py
index 63e45ac..2246992 100644
--- a/typedload/dataloader.py
+++ b/typedload/dataloader.py
@@ -471,6 +471,13 @@ def _tupleload(l: Loader, value: Any, type_) -> Tuple:
         annotation = Annotation(AnnotationType.INDEX, index)
         e.trace.insert(0, TraceItem(value, type_, annotation))
         raise e
+    except _NoHandlerError:
+        t = args[next(ctr) - 2]
+        raise TypedloadTypeError(
+            'Cannot deal with value of type %s' % tname(t),
+            value=value,
+            type_=t,
+        )
     except TypeError as e:
         raise TypedloadTypeError(str(e), value=value, type_=type_)
     except Exception as e:
-- 
2.43.0

