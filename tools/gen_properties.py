#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit the statements)."""
import json, os
DL='typedload/dataloader.py'; DD='typedload/datadumper.py'; EX='typedload/exceptions.py'; TC='typedload/typechecks.py'; IN='typedload/__init__.py'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=('typedload.load','typedload.dump')):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=list(files),state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))

p('C01','A successful load returns a value that conforms to the requested type',
 "For every supported type and every input value, if loading succeeds the result conforms to the type at every depth: a container of exactly the requested kind with conforming items, keys and values; an object of the requested class with conforming fields; a typed dictionary with all its required keys and no unknown ones; an allowed literal or enum member; an instance of the requested basic, date, path, address or pattern type; a value conforming to at least one member of a union. This holds for every combination of the loader options. (The value a field takes from a user-written converter is the converter's business.)",
 ['inputs','configurations','programs'],'every supported schema, every JSON-like input value, every setting of basiccast, failonextra and uniondebugconflict',
 'Tests load a few dozen literal values; conformance of nested results for values of the wrong kind, mixed kinds or unusual content is never checked as such.',
 [DL,TC],[('per-type handlers and the shortcuts that bypass them',DL+': _basicload _dictload _tupleload _iterload _objloader _unionload')])
p('C02','A failed load always raises a typedload exception',
 "For every supported type and whatever the input value is, including unhashable, unsized, one-shot, out-of-range, non-finite or non-string-keyed data, loading either returns a value or raises an exception of the TypedloadException family. No assertion failure and no raw Python exception escapes, also when the constructor of the loaded class rejects its arguments with ValueError or TypeError. (Values whose own methods raise arbitrary exceptions, handlers written by the user, and data nested so deep that the interpreter's stack overflows are outside this guarantee.)",
 ['inputs','configurations'],'every supported schema, every input value, every setting of the loader options',
 'Tests provoke a few chosen failures per type; the claim is about every malformed input.',
 [DL,EX],[('try/except translation in each handler',DL),('assertion in load()',DL+': Loader.load')])
p('C03','With casting disabled, basic values are never converted',
 "With basiccast disabled, a value is accepted where a basic type (int, bool, float, str, None) is expected only if it already is an instance of that type, and then it is returned unchanged; a value whose type is exactly the requested one is always accepted. This holds at top level and inside lists, sets, tuples, dictionaries, objects, unions and optional values.",
 ['inputs','programs'],'every input value and every position where a basic type can occur in a schema',
 'Tests try a handful of wrong-typed values, mostly at top level; the shortcuts for containers and unions are separate code.',
 [DL],[('basiccast test',DL+': _basicload'),('container shortcuts',DL+': _iterload _tupleload _dictload _unionload')])
p('C04','With casting enabled, basic values convert exactly as the type constructor does',
 "With basiccast enabled, loading a value into int, bool, float or str returns the value itself when it already has that type, and otherwise exactly what calling that type on the value returns; it fails exactly when that call fails. The same holds for each item, key, value or field of basic type inside a container or object, where an instance of a subclass of the basic type (a bool for an int) may also be kept as it is.",
 ['inputs','programs'],'every input value and every position where a basic type can occur in a schema',
 'Tests sample a few conversions; agreement with the constructor is a statement about all values.',
 [DL],[('type_(value) and exception translation',DL+': _basicload')])
p('C05','Lists, sets and tuples are loaded item by item, none lost, added or moved',
 "Loading an iterable into a list, set, frozenset or variable-length tuple succeeds exactly when every item loads into the item type, and the result holds exactly the loaded items, in input order for ordered kinds; dictionaries are refused. A fixed-length tuple loads position i into the i-th type, refuses values that are too short, and ignores surplus items or, with failonextra, refuses them. The result does not depend on the length of the input or on the position of an item.",
 ['inputs','configurations'],'every iterable input (list, tuple, set, string) of any length, every item type, every loader option',
 'Tests use short fixed lists; the fast paths depend on the item type, the item values and their positions.',
 [DL],[('compress/count iteration and shortcuts',DL+': _iterload'),('zip of values, handlers and types',DL+': _tupleload')])
p('C06','Dictionary keys and values are each loaded with their own type',
 "Loading a mapping into a dictionary type succeeds exactly when every key loads into the key type and every value into the value type, and the result maps each loaded key to its loaded value, in input order, with nothing lost or added (keys that load to equal values collapse to the last one). This is the same on the first and on later uses of a loader.",
 ['inputs','configurations','histories'],'every mapping, every key and value type, fresh and reused loaders',
 'Tests use very few key/value type pairs on fresh loaders; handler lookup for keys and values is order- and cache-dependent.',
 [DL],[('handler lookup, fast comprehension and traced fallback',DL+': _dictload')],[('handler cache','type -> handler function',DL+': Loader._indexcache')])
p('C07','Objects are built from exactly the fields present, defaults and required fields',
 "Loading a mapping into a NamedTuple, dataclass, attrs class or TypedDict succeeds only if all required fields are present; each present field holds its value loaded with the field's type, each absent optional field takes the class default (or stays absent in a TypedDict); class variables are no fields, and the order of the input keys is irrelevant. Keys that are not fields are ignored, or refused when failonextra is set. All four kinds of object behave alike.",
 ['inputs','programs','configurations'],'every mapping (any subset of fields, any extra keys including non-string ones), every combination of required and defaulted fields, both failonextra settings',
 'Tests load a few complete or single-fault dictionaries per object kind; subsets of keys, orders and option combinations are not covered.',
 [DL],[('field sets and required/extra checks',DL+': _objloader _dataclassload _namedtupleload _attrload _typeddictload')],[('dataclass cache','fields, required fields, hints, renames per class',DL+': Loader._objfieldscache')])
p('C08','Renamed fields use their external name, and only that, in both directions',
 "A dataclass or attrs field that declares an external name under the active metadata key is loaded from that external name and dumped under it, for any set of renamings including ones that swap or shift names between fields; the internal name is then not accepted in the data unless it is also the external name of some field (with failonextra its presence is an error). Fields without an external name for the active key keep their own name.",
 ['inputs','programs','configurations'],'every renaming of the fields by distinct external names, every mapping, any metadata key',
 'Tests use three fixed renamings; swaps combined with missing, extra and internal keys are a product space.',
 [DL,DD],[('rename map',DL+': _mangle_names _dataclassload _attrload'),('metadata lookup on dump',DD+': _dataclassdump _attrdump')])
p('C09','A union loads to what one of its members gives, preferring no conversion',
 "A value whose own type is a basic type listed in the union is returned unchanged. Otherwise loading succeeds exactly when at least one member type accepts the value, the result is what such a member gives on its own, and basic types are used only if no other member accepts; when it fails, the error lists one error per member type. The order in which the members are written does not affect whether loading succeeds.",
 ['inputs','programs','configurations'],'every union of supported types, every value, every loader option',
 'Tests try fixed values on a few unions; agreement with the members on all values is not checked.',
 [DL],[('ordering and trial of the members',DL+': _unionload')])
p('C10','A literal tag selects the right member of a union of objects',
 "In a union of object types that share a required literal-typed field with disjoint allowed values, data whose tag equals one of those values is loaded as the member declaring it, or refused if that member refuses it; data with a missing, unknown or unhashable tag is refused. This holds whatever the order of the members and whatever was loaded before.",
 ['inputs','programs','histories'],'every tagged union up to the bound, every data dictionary, every load history',
 'Tests use one or two tags with well-formed data; wrong-typed tags, other shared literal fields and reuse of the cached tag table are not sampled.',
 [DL,TC],[('tag table',DL+': _unionload'),('literal discovery',TC+': discriminatorliterals')],[('tag cache','union -> (tag field, tag value -> type)',DL+': Loader._unionload_discriminatorcache')])
p('C11','Union conflict debugging only reports real ambiguities',
 "With uniondebugconflict enabled, a union load returns the same value as without it when exactly one member accepts the value, raises a type error when more than one member accepts it, and fails when none does (a member accepts a value that loads into it on its own with the same options). A value whose own basic type is listed in the union is still returned unchanged.",
 ['inputs','programs','configurations'],'every union, every value',
 'The existing test loads one value into one union.',
 [DL],[('success counter',DL+': _unionload')])
p('C12','Literals and enums accept exactly their declared values',
 "Loading into a Literal succeeds exactly when the value equals one of the declared literals and returns that value. Loading into an Enum succeeds exactly when the value equals a member's value (or is a member), or becomes equal to one after being loaded with one of the types annotated inside the enum, and returns that member; everything else is refused.",
 ['inputs','programs'],'every value of every kind, including unhashable and cross-type equal ones (1, 1.0, True)',
 'Tests try the declared values and one or two others.',
 [DL],[('membership test',DL+': _literalload'),('conversion then annotated types',DL+': _enumload')])
p('C13','Dumping and loading back gives an equal value',
 "For every value of a supported type built only from constructor fields that appear in dumps, whose unions are unambiguous, whose patterns were compiled without flags and whose dictionary keys dump to hashable values, loading its dump into its type gives an equal value, whether or not defaults are hidden, whether or not dates are dumped as ISO text (timezone-less for the list form), and under matching renaming keys, including with failonextra set and casting disabled. (Durations are exact as far as their number of seconds is exact as a float.)",
 ['inputs','programs','configurations'],'every typed value within the bound, every dumper option with the matching loader options',
 'Tests round-trip a few fixed objects.',
 [DL,DD],[('inverse pairs of dump and load handlers',DD),('load handlers',DL)])
p('C14','A dump consists only of basic values, lists and dictionaries, and is complete',
 "Dumping a supported value yields only values of basic type (plus bytes for byte patterns), lists and dictionaries, at every depth: every item of a sequence in order, every entry of a mapping, every field of an object under its external name (fields hidden as defaults or excluded from the representation aside). Giving the type of the value as annotation changes only how fast this is done, never the output.",
 ['inputs','programs','configurations'],'every typed value within the bound, every dumper option, annotated or not',
 'Tests compare a few dumps; annotation-driven shortcuts depend on the declared types of the fields.',
 [DD],[('handler list',DD+': Dumper.handlers'),('annotated shortcut',DD+': _iteratordump'),('object dumps',DD+': _dataclassdump _attrdump _namedtupledump')])
p('C15','Default hiding drops a field exactly when it equals its default',
 "With hidedefault enabled an object field is left out of the dump if and only if it has a default (or default factory) and its current value equals it; with hidedefault disabled no field is left out. Dumping one object never affects what is hidden in another, also when defaults are mutable or produced by a factory. (The default is the declared one, before any converter.)",
 ['inputs','histories','configurations'],'every field value, every kind of default, every sequence of dumps with one dumper',
 'Tests check a default and a non-default value once per object kind.',
 [DD],[('default comparison',DD+': _dataclassdump _attrdump _namedtupledump')],[('dataclass cache','fields, defaults, hints per class',DD+': Dumper._dataclasscache')])
p('C16','Reusing a loader or dumper never changes a result',
 "A loader or dumper used for any earlier sequence of loads or dumps, successful or failed, of same or different types, afterwards gives for every value the same result or the same kind of failure as a fresh one with the same options. (Distinct classes that share a name and are only referred to by name are outside this guarantee.)",
 ['histories','inputs'],'every history of operations up to the bound, with arbitrary values',
 'Tests mostly create a fresh object per assertion; cache poisoning needs a specific sequence.',
 [DL,DD],[('lazily filled caches',DL+': load _dictload _iterload _objloader _unionload _dataclassload'),('dump caches',DD+': dump _dataclassdump')],
 [('handler cache','type -> handler',DL+': Loader._indexcache'),('tag cache','union -> tags',DL+': Loader._unionload_discriminatorcache'),('object cache','class -> field info',DL+': Loader._objfieldscache'),('dump caches','type -> handler / defaults',DD+': Dumper._handlerscache, _dataclasscache')])
p('C17','Loading and dumping leave their inputs and the schema untouched',
 "Neither a successful nor a failed load changes the input data or the definition of the types involved, and a dump does not change the dumped object. Containers in a loaded value (except where the type is Any or a literal, and mutable defaults that the class itself shares between its instances) and in a dump are new objects, so that modifying the result does not modify the source, nor defaults, nor later results.",
 ['inputs','histories','programs'],'every input, every schema, success or failure, followed by modification of the result',
 'One test compares a renamed dictionary before and after; aliasing is not tested at all.',
 [DL,DD],[('copying construction of results',DL+': _iterload _dictload _mangle_names'),('list copy on dump',DD+': _iteratordump')])
p('C18','An error says which value failed, where, and for which type',
 "When a load fails inside nested data, the exception's trace starts at the root value and type, and following its index, field, key and value annotations from the root leads, step by step, to the container recorded at each step and finally to the offending value, which with the expected type is also exposed on the exception; the value is one that the type does not accept (or that the constructor of the type refused). Where a type inside a container or object is not supported, the value is this container or object and the type the unsupported one. For a union or enum the errors of all attempts are attached, each locating its own failure in the same way.",
 ['inputs','programs'],'every failing position in every nested input within the bound',
 'Tests check the path of a dozen fixed errors.',
 [DL,EX],[('trace insertion at each level',DL+': load _iterload _tupleload _objloader _unionload'),('exception data',EX+': TypedloadException')],observe=['TypedloadException.trace','TypedloadException.value','TypedloadException.type_','TypedloadException.exceptions'])
p('C19','Recursive types referred to by name load to any depth, wherever they are nested',
 "A class whose typing constructs refer to itself or to an already encountered class by name loads data of any nesting depth, with the same result as if the name were replaced by the class, no matter whether the class is the root type or occurs inside containers, unions or other objects, and no matter what the loader processed before. With name resolution disabled, or for an unknown name, such data is refused with a typedload exception.",
 ['inputs','programs','histories'],'every recursive schema and position within the bound, every value, every load history',
 'Tests load one recursive class as the root type.',
 [DL],[('name table and lookup',DL+': Loader.load _forwardrefload')],[('known names','class name -> class',DL+': Loader.frefs')])
p('C20','Handlers are tried in order and the first match is used everywhere',
 "For loader and dumper alike, a type or value is treated by the first handler in the list whose condition holds, at top level and at any depth (basic types and unions of them inside containers excepted), and the reported index is that position; if none matches, a typedload error is raised. A condition that raises counts as not matching when raiseconditionerrors is disabled; when it is enabled, its error is passed on by index, load and dump for the type or value itself, and makes the load fail where it happens inside the data. (Conditions of a dumper depend on the type of the value only.)",
 ['inputs','configurations'],'every list of handlers with arbitrary condition outcomes, every position of a handled type',
 'Tests insert one handler at one position.',
 [DL,DD],[('linear search',DL+': Loader.index'),('linear search',DD+': Dumper.index')],observe=['Loader.index','Dumper.index','Loader.load','Dumper.dump'])
p('C21','Every typedload exception renders as text with its message and path',
 "Converting a typedload exception to text never fails and contains its message and the path to the failure, in which list positions appear as bracketed numbers and fields by name, in order from the root (how other steps, such as union members and dictionary keys, are rendered is free); for nested union errors every attached error is listed with its own message and its full path from the root.",
 ['inputs','programs'],'every exception reachable by loading, and every trace built from the documented annotations',
 'Tests render a few exceptions and compare few paths.',
 [EX],[('path and nested rendering',EX+': _path _subexceptions _firstline __str__')],observe=['str(TypedloadException)'])
p('C22','Dates and durations survive and are range-checked',
 "Loading a date, time, datetime or timedelta from a list of integers, ISO text or number gives exactly the value that the standard constructor gives for it (durations given as a number are seconds), and fails with a typedload exception exactly when that constructor refuses it; dumping then gives back the same components (or ISO text), and timezone-aware values are either dumped faithfully as ISO text or refused. A duration is dumped as its number of seconds, as a float.",
 ['inputs','configurations'],'every list of up to 8 components of any kind and size, every number, ISO text of the listed forms',
 'Tests use a few dates; component order, ranges and overflow are a numeric space.',
 [DL,DD],[('constructor call and error translation',DL+': _datetimeload _timedeltaload'),('component list',DD+': _datetimedump _timedeltadump')])
p('C23','Types built from text load by their constructor and dump to their text',
 "A type in the string-constructed set is loaded by calling it with the value, giving exactly that object, failing with a typedload exception exactly when the call raises any exception; dumping gives its text form (types that an earlier handler takes, such as enums, are outside this). Patterns are compiled from the given text or bytes, must match the declared text kind, and dump to the same text or bytes.",
 ['inputs','programs'],'every value, every behaviour of the constructor',
 'Tests load a few paths, addresses and patterns.',
 [DL,DD],[('constructor call',DL+': _strconstructload _patternload'),('str() on dump',DD+': Dumper.handlers')])
p('C24','Namespaces and dict-like objects load like the equivalent dictionary',
 "With dictequivalence enabled an argparse.Namespace loads into any dictionary or object type with the same result or failure kind as the dictionary of its attributes; with it disabled it is refused. Any object offering the mapping methods used for reading loads into objects and dictionaries like a dictionary with the same content. (Unions with members that are neither, and attributes that hide methods of the namespace, are outside this.)",
 ['inputs','configurations','programs'],'every set of attributes and values, every dictionary or object type',
 'Tests load one namespace into one NamedTuple and one dictionary.',
 [DL],[('conversion',DL+': _dictequivalence _objloader _dictload _mangle_names')])
p('C25','The function API equals a fresh loader or dumper with the same options',
 "Calling load or dump with options gives the same result or failure as constructing a loader or dumper with those options and using it, options given as keywords are equivalent to setting the attributes before first use, and calls never influence each other.",
 ['inputs','configurations','histories'],'every value, every combination of the documented options, every sequence of calls up to the bound',
 'Tests pass few options and never compare the two interfaces.',
 [IN,DL,DD],[('delegation',IN+': load dump'),('keyword handling',DL+': Loader.__init__'),('keyword handling',DD+': Dumper.__init__')])
p('C26','Type predicates classify every type by exactly its kind',
 "For every type accepted by the loader exactly the predicates that describe it hold (a type is a list, a dictionary, a union, an enum... and nothing else), and every predicate answers False instead of raising for any other object.",
 ['programs'],'every Python type object and every other object',
 'Tests assert a few positive and negative cases per predicate.',
 [TC],[('is_* predicates',TC)],observe=['typedload.typechecks'])
p('C27','A loader or dumper can be shared between threads',
 "Concurrent loads or dumps through one shared loader or dumper, which nobody reconfigures, give each caller the same result or kind of failure as running alone, and leave the loader or dumper in a state in which later operations give the same results as on a fresh one. (References by name that only resolve because of what another caller loads, and Python statements executing partially, are outside this.)",
 ['schedules'],'every interleaving of two or more calls',
 'No test uses threads, and a failing interleaving needs one particular interruption.',
 [DL,DD],[('idempotent cache fills',DL+': Loader._indexcache _objfieldscache _unionload_discriminatorcache'),('dump caches',DD+': Dumper._handlerscache _dataclasscache')],
 [('handler cache','type -> handler',DL+': Loader._indexcache'),('tag cache','union -> tags',DL+': Loader._unionload_discriminatorcache'),('object cache','class -> field info',DL+': Loader._objfieldscache'),('known names','class name -> class',DL+': Loader.frefs')])
p('C28','Postponed annotations resolve to the same schema',
 "With pep563 enabled, NamedTuple, dataclass and TypedDict classes defined at module level with postponed evaluation of annotations load, and dump, as if their annotations were evaluated eagerly and all names known, also when they inherit from classes of other modules, and classes with eager annotations are not affected by the option.",
 ['programs','inputs'],'every module-level class definition, every value',
 'Tests load two fixed classes.',
 [DL],[('get_type_hints',DL+': _namedtupleload _dataclassload _typeddictload')])
p('C29','The parameter of a converter decides how an attrs field is loaded',
 "An attrs field that has a converter is loaded as if its type were that of the converter's parameter (the first parameter of a function, method, class, callable object, partial or attrs converter), or Any if that has no type hint, whatever type the field itself declares and whatever other hints the converter has; the attribute is exactly what the converter makes of the loaded value, and an absent field takes the converted default. If the converter raises ValueError or TypeError, the load fails with a typedload exception. This is so at every depth, under renaming, and independently of the converters of other classes.",
 ['programs','inputs','configurations'],'every way of writing a converter, every parameter type, every value of the field, every option',
 'Tests have three converters with fixed values.',
 [DL],[('type of the parameter',DL+': _get_attr_converter_type'),('field types',DL+': _attrload')])
p('C30','Stricter options only refuse more, they never change a result',
 "If loading a value succeeds with failonextra set, then it succeeds without it and gives an equal result; likewise for basiccast disabled against enabled, dictequivalence disabled against enabled, name resolution disabled against enabled and raiseconditionerrors, for every type without unions (optional values are allowed). For unions of which at most one member accepts, the same holds for uniondebugconflict.",
 ['inputs','configurations'],'every value, every type without unions other than optionals, every setting of the other options',
 'Tests use each option with one or two values.',
 [DL],[('uses of the options',DL+': _basicload _tupleload _objloader _mangle_names _dictequivalence _unionload _forwardrefload')])
p('C31','The same type written in another way is the same schema',
 "Types that are written differently and mean the same load every value with the same result or the same kind of failure, and their values dump alike, alone and inside other types, also when both are used with one loader: typing's generics and the builtin ones (List[int], list[int]); Optional, Union with None, the bar, nested or repeated members, in any order; a NewType and its supertype (outside unions; a bool may be kept where an int is meant); None and its type; a Literal with its values in another order; the same fields defined by a NamedTuple, dataclass, attrs class or TypedDict with the functional or the class syntax, by inheritance, by a plain subclass, frozen, slotted or keyword-only. (Which member of an ambiguous union is used is free.)",
 ['programs','inputs'],'every value, every pair of ways of writing a type',
 'Tests load fixed values into one way of writing most types.',
 [DL,TC],[('predicates',TC),('fields of the objects',DL+': _namedtupleload _dataclassload _attrload _typeddictload'),('members of unions',TC+': uniontypes')])
p('C32','The set of basic types can be changed',
 "A class added to basictypes before first use (as argument or attribute) is treated as the basic types are: a value of exactly that class is returned as it is, other values are refused without basiccast and are otherwise given to the class, whose result is used and whose exceptions become typedload exceptions; in a union a value of the class is kept, and the class is tried last. This holds at top level and inside containers, optionals, unions and objects (where an instance of a subclass may also be kept). A dumper with the class in its basictypes dumps its instances as they are. A type removed from the set is refused as unsupported wherever it is needed.",
 ['inputs','configurations'],'every value, every place, every outcome of the constructor',
 'Tests do not change the set of a loader beyond one fixed case.',
 [DL,DD],[('uses of basictypes',DL+': _basicload _dictload _tupleload _iterload _unionload _enumload'),('identity dump',DD+': _identitydump _iteratordump')])
p('C33','Results do not depend on the hash seed or the order of sets',
 "Loading or dumping the same data with the same type and options gives in every run an equal result, with the items of lists and dictionaries in the same order, or the same kind of failure whose trace leads to the same place, whatever the order in which sets of names, types or values happen to be iterated in this run. (The wording of messages, the order of sets in the data or the result, and of keys collected from the data, are outside this.)",
 ['inputs','configurations','histories'],'every order of every set that is iterated, every value, every option',
 'Tests run with one order of each set, and sets of few names are often in a convenient order by chance.',
 [DL,DD],[('choice of the tag of a union',DL+': _unionload'),('order in which fields are loaded',DL+': _objloader _namedtupleload _typeddictload'),('order of hints and members',DL+': _enumload _literalload'),('order of dumped fields',DD+': _dataclassdump _attrdump')])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
print(len(P),'properties')
